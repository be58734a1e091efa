// C21: polynomial expansion lists every monomial once.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type prodCase struct {
	Values []int `json:"values"`
	Repeat int   `json:"repeat"`
}

func genProd(t *rapid.T) prodCase {
	c := prodCase{Values: kit.List(t, rapid.IntRange(-5, 9), 0, 6, "values")}
	max := 7
	for k := 0; pow(len(c.Values), max) > 5000 && k < 10; k++ {
		max--
	}
	c.Repeat = rapid.IntRange(0, max).Draw(t, "repeat")
	return c
}

func pow(a, b int) int {
	r := 1
	for i := 0; i < b; i++ {
		r *= a
	}
	return r
}

func runProd(c prodCase, o *kit.Obs) error {
	vals := append([]int{}, c.Values...)
	got := featselect.IterProduct(vals, c.Repeat)
	if !kit.SameInts(vals, c.Values) {
		return fmt.Errorf("values were modified")
	}
	n := pow(len(c.Values), c.Repeat)
	if len(got) != n {
		return fmt.Errorf("%d rows, want %d", len(got), n)
	}
	check := func() error {
		for i := range got {
			if len(got[i]) != c.Repeat {
				return fmt.Errorf("row %d has %d entries, want %d", i, len(got[i]), c.Repeat)
			}
			k := i
			for pos := c.Repeat - 1; pos >= 0; pos-- {
				if want := c.Values[k%len(c.Values)]; got[i][pos] != want {
					return fmt.Errorf("row %d is %v: position %d should be %d", i, got[i], pos, want)
				}
				k /= len(c.Values)
			}
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	// rows are independent: writing to one changes no other
	if n > 1 && c.Repeat > 0 && n <= 400 {
		for i := range got {
			keep := append([]int{}, got[i]...)
			for j := range got[i] {
				got[i][j] = -999
			}
			_ = append(got[i], -998)
			for k := range got {
				if k != i {
					for _, v := range got[k] {
						if v == -999 || v == -998 {
							return fmt.Errorf("rows %d and %d share memory", i, k)
						}
					}
				}
			}
			copy(got[i], keep)
		}
	}
	if c.Repeat >= 2 && len(c.Values) >= 2 {
		o.NonTrivial()
	}
	o.Label("repeat=%d", c.Repeat)
	return nil
}

type polyCase struct {
	Rows, NCols int
	Max         int         `json:"max"`
	Cols        []int       `json:"cols"` // nil: NewLazyMatrix over all columns
	First       int         `json:"first"`
	Extra       map[int]int `json:"extra"`
	Seed        uint64      `json:"seed"`
}

func genPoly(t *rapid.T) polyCase {
	c := polyCase{Rows: rapid.IntRange(1, 6).Draw(t, "rows"), NCols: rapid.IntRange(1, 5).Draw(t, "ncols")}
	top := []int{0, 9, 7, 5, 4, 3}[c.NCols]
	c.Max = rapid.IntRange(0, top).Draw(t, "max")
	if rapid.Bool().Draw(t, "subset") {
		k := rapid.IntRange(0, c.NCols).Draw(t, "k")
		c.Cols = rapid.Permutation(seq(c.NCols)).Draw(t, "perm")[:k]
		c.First = rapid.IntRange(0, 2).Draw(t, "first")
	}
	if rapid.IntRange(0, 2).Draw(t, "hasExtra") == 0 {
		c.Extra = map[int]int{}
		for j := 0; j < c.NCols; j++ {
			if rapid.Bool().Draw(t, "use") {
				c.Extra[j] = rapid.IntRange(0, 6).Draw(t, "pow")
			}
		}
	}
	if kit.IsLarge() {
		c.Rows = rapid.IntRange(1, 60).Draw(t, "rows large")
		c.NCols = rapid.IntRange(5, 8).Draw(t, "ncols large")
		c.Max, c.First, c.Cols = rapid.IntRange(0, 2).Draw(t, "max large"), 0, nil
		if rapid.Bool().Draw(t, "many") {
			c.NCols = rapid.IntRange(8, 30).Draw(t, "ncols many")
			c.Cols = rapid.Permutation(seq(c.NCols)).Draw(t, "perm large")[:rapid.IntRange(0, 3).Draw(t, "k large")]
			c.Max = rapid.IntRange(0, 5).Draw(t, "max many")
		}
	}
	c.Seed = rapid.Uint64().Draw(t, "seed")
	return c
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// monomials enumerates exponent vectors over cols with 2 <= degree <= max.
func monomials(ncols int, cols []int, max int) [][]int {
	var out [][]int
	e := make([]int, ncols)
	var rec func(k, left int)
	rec = func(k, left int) {
		if k == len(cols) {
			d := 0
			for _, v := range e {
				d += v
			}
			if d >= 2 {
				out = append(out, append([]int{}, e...))
			}
			return
		}
		for v := 0; v <= left; v++ {
			e[cols[k]] = v
			rec(k+1, left-v)
		}
		e[cols[k]] = 0
	}
	rec(0, max)
	return out
}

func runPoly(c polyCase, o *kit.Obs) error {
	r := kit.NewRng(c.Seed)
	X := mat.NewDense(c.Rows, c.NCols, nil)
	for i := 0; i < c.Rows; i++ {
		for j := 0; j < c.NCols; j++ {
			v := 0.6 + 1.1*r.F() // generic values: different monomials differ
			if i > 0 && r.I(3) == 0 {
				v = []float64{0, -1.3, 2, -0.5}[r.I(4)]
			}
			X.Set(i, j, v)
		}
	}
	keep := mat.DenseCopyOf(X)
	if c.Seed>>13&1 == 1 {
		X = kit.Strided(c.Rows, c.NCols, append([]float64{}, keep.RawMatrix().Data...), r.I(3), r.I(3), r.I(2))
	}
	var lazy *featselect.LazyPowerMatrix
	var want [][]int
	if c.Cols == nil {
		lazy = featselect.NewLazyMatrix(X, c.Max)
		want = monomials(c.NCols, seq(c.NCols), c.Max)
	} else {
		lazy = featselect.NewLazyMatrix(X, c.First)
		want = monomials(c.NCols, seq(c.NCols), c.First)
		cols := append([]int{}, c.Cols...)
		lazy.AddPowerSequence(cols, c.Max)
		if !kit.SameInts(cols, c.Cols) {
			return fmt.Errorf("column list was modified")
		}
		want = append(want, monomials(c.NCols, c.Cols, c.Max)...)
	}
	if c.Extra != nil {
		p := map[int]int{}
		e := make([]int, c.NCols)
		for k, v := range c.Extra {
			p[k] = v
			e[k] = v
		}
		lazy.AddPower(p)
		want = append(want, e)
	}
	if lazy.NumCols() != c.NCols+len(want) {
		return fmt.Errorf("%d columns, want %d original and %d monomials", lazy.NumCols(), c.NCols, len(want))
	}
	full := lazy.FullMatrix()
	fr, fc := full.Dims()
	if fr != c.Rows || fc != lazy.NumCols() {
		return fmt.Errorf("full matrix is %dx%d", fr, fc)
	}
	used := make([]bool, len(want))
	for k := 0; k < lazy.NumCols(); k++ {
		col := lazy.GetCol(k)
		if len(col) != c.Rows {
			return fmt.Errorf("column %d has %d rows", k, len(col))
		}
		for i := range col {
			if !(math.Abs(col[i]-full.At(i, k)) <= 1e-12*math.Abs(col[i])) { // the factors have no fixed order
				return fmt.Errorf("full matrix differs from column %d", k)
			}
		}
		if k < c.NCols {
			for i := range col {
				if col[i] != keep.At(i, k) {
					return fmt.Errorf("column %d is not the original column", k)
				}
			}
			continue
		}
		// which monomial is it?
		found := -1
		for m, e := range want {
			if used[m] {
				continue
			}
			ok := true
			for i := range col {
				v := 1.0
				for j, p := range e {
					for q := 0; q < p; q++ {
						v *= keep.At(i, j)
					}
				}
				if !(math.Abs(v-col[i]) <= 1e-11*math.Max(math.Abs(v), 1e-3)) {
					ok = false
					break
				}
			}
			if ok {
				found = m
				break
			}
		}
		if found < 0 {
			return fmt.Errorf("column %d (%v) is not a monomial of degree 2..%d, or is a repetition", k, col, c.Max)
		}
		used[found] = true
	}
	// a returned column is a copy
	if lazy.NumCols() > 0 {
		v := lazy.GetCol(0)
		v[0] += 5
		if lazy.GetCol(0)[0] != keep.At(0, 0) || X.At(0, 0) != keep.At(0, 0) {
			return fmt.Errorf("a returned column shares the matrix")
		}
	}
	if !mat.Equal(X, keep) {
		return fmt.Errorf("the matrix was modified")
	}
	// the full matrix belongs to the caller, and a later one has the powers of the data at that time
	kept := mat.DenseCopyOf(full)
	for _, late := range []bool{false, true} {
		full.Set(c.Rows-1, fc-1, full.At(c.Rows-1, fc-1)-7)
		if !mat.Equal(X, keep) {
			return fmt.Errorf("the full matrix shares the data")
		}
		if late {
			i := r.I(c.Rows)
			for j := 0; j < c.NCols; j++ {
				X.Set(i, j, keep.At(i, j)*1.25)
				kept.Set(i, j, X.At(i, j))
			}
			for k := c.NCols; k < fc; k++ {
				kept.Set(i, k, lazy.GetCol(k)[i])
			}
			keep = mat.DenseCopyOf(X)
		}
		again := lazy.FullMatrix()
		if a, b := again.Dims(); a != c.Rows || b != fc {
			return fmt.Errorf("the second full matrix is %dx%d", a, b)
		}
		if !mat.EqualApprox(again, kept, 1e-9) {
			return fmt.Errorf("the full matrix is not that of the current data (changed: %v)", late)
		}
		for k := 0; k < c.NCols; k++ {
			for i, v := range lazy.GetCol(k) {
				if v != X.At(i, k) {
					return fmt.Errorf("column %d is not that of the current data", k)
				}
			}
		}
		full = again
	}
	if len(want) >= 3 {
		o.NonTrivial()
	}
	o.Label("max=%d cols=%d", c.Max, c.NCols)
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C21",
		Rule: "product: up to 6 values and up to 7 repeats (at most 5000 rows), compared with positional notation; non-trivial: at least 2 values and 2 repeats. poly: up to 5 columns with generic values, maximum power up to 9; every extra column is matched with a distinct monomial; non-trivial: at least three monomials.",
		Subs: []kit.Sub{
			kit.NewSub("product", 60000, 300000, genProd, runProd),
			kit.NewSub("poly-large", 6000, 8000, kit.Large(genPoly), runPoly),
			kit.NewSub("poly", 60000, 300000, genPoly, runPoly),
		}})
}
