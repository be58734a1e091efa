// C18: datasets keep features, names and values together.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strconv"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type dsCase struct {
	N      int       `json:"n"`
	P      int       `json:"p"`
	X      []float64 `json:"x"`
	Y      []float64 `json:"y"`
	Names  []string  `json:"names"`
	Target int       `json:"target"`
	View   bool      `json:"view"` // X is a part of a larger matrix
	Ops    []dsOp    `json:"ops"`
}

type dsOp struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	Sel  []int  `json:"sel,omitempty"`
}

func (c dsCase) Smaller() []dsCase {
	var out []dsCase
	if len(c.Ops) > 1 {
		for i := range c.Ops {
			d := c
			d.Ops = append(append([]dsOp{}, c.Ops[:i]...), c.Ops[i+1:]...)
			out = append(out, d)
		}
	}
	if c.N > 1 {
		d := c
		d.N--
		d.X = c.X[:d.N*c.P]
		d.Y = c.Y[:d.N]
		out = append(out, d)
	}
	for i := range c.X {
		if c.X[i] != math.Trunc(c.X[i]) {
			d := c
			d.X = append([]float64{}, c.X...)
			d.X[i] = math.Trunc(c.X[i])
			out = append(out, d)
		}
	}
	return out
}

func gen(t *rapid.T) dsCase {
	c := dsCase{N: kit.Upto(t, 1, 8, 150, "n"), P: kit.Upto(t, 1, 6, 40, "p")}
	if kit.IsLarge() && c.P <= 8 {
		c.N = rapid.IntRange(500, 5000).Draw(t, "many rows")
	}
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	v := func() float64 {
		switch r.I(8) {
		case 0:
			return float64(r.I(7) - 3)
		case 1:
			return r.N() * 1e6
		case 2:
			return r.N() * 1e-5
		case 3:
			return math.Round(r.N()*1e4) / 1e2
		}
		return r.N()
	}
	for i := 0; i < c.N*c.P; i++ {
		c.X = append(c.X, v())
	}
	for i := 0; i < c.N; i++ {
		c.Y = append(c.Y, v())
	}
	for j := 0; j <= c.P; j++ {
		c.Names = append(c.Names, rapid.SampledFrom([]string{"x", "y", "feat ", " lead", "a,b", "q\"q", "br\nk", "é", "", "x^2*"}).Draw(t, "name")+strconv.Itoa((j*5+3)%11+j/11*11))
	}
	if c.P < len(alike) && rapid.Bool().Draw(t, "alike") {
		copy(c.Names, rapid.Permutation(alike).Draw(t, "alike names"))
	}
	c.Target = rapid.IntRange(0, c.P).Draw(t, "target")
	c.View = rapid.IntRange(0, 2).Draw(t, "view") == 0
	n := rapid.IntRange(1, 8).Draw(t, "nops")
	for k := 0; k < n; k++ {
		op := dsOp{Kind: rapid.SampledFrom([]string{"csv", "file", "json", "subset", "copy", "write", "writey", "rename", "equal"}).Draw(t, "op"),
			A: rapid.IntRange(0, 1000).Draw(t, "a"), B: rapid.IntRange(0, 1000).Draw(t, "b")}
		if op.Kind == "subset" {
			m := rapid.IntRange(1, c.P).Draw(t, "m")
			op.Sel = rapid.Permutation(seq(c.P)).Draw(t, "sel")[:m]
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// alike are different names that a loose comparison mixes up.
var alike = []string{"x", "X", "x ", " x", "xx", "xX", "é", "É", "e\u0301", "x_", "x-", "0x", "x\u00a0", "s", "S", "ſ", "k", "K", "\u212a", "", "null", "0", "1", "00", "1e0", "x\tx", "x x", "x.x"}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// ref is the model of a dataset: a name and a column per feature.
type ref struct {
	names  []string // of the features
	cols   [][]float64
	tname  string
	y      []float64
	target int
}

func (r *ref) clone() *ref {
	q := &ref{tname: r.tname, target: r.target, y: append([]float64{}, r.y...), names: append([]string{}, r.names...)}
	for _, c := range r.cols {
		q.cols = append(q.cols, append([]float64{}, c...))
	}
	return q
}

func (r *ref) check(d *featselect.Dataset, tol float64) error {
	nr, nc := d.X.Dims()
	if nr != len(r.y) || nc != len(r.cols) || len(d.Y) != nr || len(d.Names) != nc+1 {
		return fmt.Errorf("X is %dx%d with %d targets and %d names; expected %d rows and %d features", nr, nc, len(d.Y), len(d.Names), len(r.y), len(r.cols))
	}
	if d.TargetCol != r.target {
		return fmt.Errorf("target column %d instead of %d", d.TargetCol, r.target)
	}
	if d.Names[d.TargetCol] != r.tname {
		return fmt.Errorf("the target is called %q instead of %q", d.Names[d.TargetCol], r.tname)
	}
	for i := range r.y {
		if !(math.Abs(d.Y[i]-r.y[i]) <= tol*(1+1e-9*math.Abs(r.y[i]))) {
			return fmt.Errorf("target %d is %v instead of %v", i, d.Y[i], r.y[i])
		}
	}
	// the number of the target is its column
	number := func() (k int, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%v", p)
			}
		}()
		return d.FeatNoByName(r.tname), nil
	}
	if k, err := number(); err != nil || k != r.target {
		return fmt.Errorf("the target %q has number %d (%v), its column is %d", r.tname, k, err, r.target)
	}
	for j := range r.cols {
		if d.GetFeatName(j) != r.names[j] {
			return fmt.Errorf("feature %d is called %q instead of %q", j, d.GetFeatName(j), r.names[j])
		}
		if k := d.FeatNoByName(r.names[j]); k != j {
			return fmt.Errorf("feature %q has number %d instead of %d", r.names[j], k, j)
		}
		for i := range r.y {
			if !(math.Abs(d.X.At(i, j)-r.cols[j][i]) <= tol*(1+1e-9*math.Abs(r.cols[j][i]))) {
				return fmt.Errorf("feature %q row %d is %v instead of %v", r.names[j], i, d.X.At(i, j), r.cols[j][i])
			}
		}
	}
	return nil
}

const printed = 5.001e-7

func run(c dsCase, o *kit.Obs) error {
	X := mat.NewDense(c.N, c.P, append([]float64{}, c.X...))
	if c.View {
		big := mat.NewDense(c.N+2, c.P+3, nil)
		for i := 0; i < c.N+2; i++ {
			for j := 0; j < c.P+3; j++ {
				big.Set(i, j, 777)
			}
		}
		for i := 0; i < c.N; i++ {
			for j := 0; j < c.P; j++ {
				big.Set(i+1, j+2, X.At(i, j))
			}
		}
		X = big.Slice(1, c.N+1, 2, c.P+2).(*mat.Dense)
	}
	d := &featselect.Dataset{X: X, Y: append([]float64{}, c.Y...), Names: append([]string{}, c.Names...), TargetCol: c.Target}
	m := &ref{y: append([]float64{}, c.Y...), tname: c.Names[c.Target], target: c.Target}
	for j := 0; j < c.P; j++ {
		k := j
		if j >= c.Target {
			k++
		}
		m.names = append(m.names, c.Names[k])
		col := make([]float64, c.N)
		for i := range col {
			col[i] = c.X[i*c.P+j]
		}
		m.cols = append(m.cols, col)
	}
	// all datasets alive, with their models: none may change through another
	ds, ms := []*featselect.Dataset{d}, []*ref{m}
	for step, op := range c.Ops {
		i := op.A % len(ds)
		cur, cm := ds[i], ms[i]
		var nd *featselect.Dataset
		nm := cm.clone()
		tol := 0.0
		switch op.Kind {
		case "csv":
			var b bytes.Buffer
			cur.SaveHandle(&b)
			nd = featselect.ParseCSV(&b, cur.TargetCol)
			tol = printed
		case "file":
			dir, err := ioutil.TempDir("", "verif-c18-")
			if err != nil {
				return kit.ErrSkip
			}
			f := filepath.Join(dir, "out.csv")
			if op.B%2 == 0 {
				// an existing, longer file is replaced
				ioutil.WriteFile(f, bytes.Repeat([]byte("a,b\n1,2\n"), 400), 0600)
			}
			cur.Save(f)
			nd = featselect.ReadCSV(f, cur.TargetCol-len(cur.Names))
			os.RemoveAll(dir)
			tol = printed
			if nd == nil {
				return fmt.Errorf("step %d: the saved file can not be read", step)
			}
		case "json":
			b, err := json.Marshal(cur)
			if err != nil {
				return fmt.Errorf("step %d: %w", step, err)
			}
			nd = &featselect.Dataset{}
			if op.B%2 == 0 {
				// decoding into a dataset that has content replaces it
				nd = ds[op.B%len(ds)].Copy()
			}
			if err := json.Unmarshal(b, nd); err != nil {
				return fmt.Errorf("step %d: %w", step, err)
			}
			if !nd.IsEqual(cur) || !cur.IsEqual(nd) {
				return fmt.Errorf("step %d: the decoded dataset differs", step)
			}
		case "subset":
			var sel []int
			for _, v := range op.Sel {
				if v < len(cm.cols) {
					sel = append(sel, v)
				}
			}
			if len(sel) == 0 {
				continue
			}
			snap := append([]int{}, sel...)
			nd = cur.GetSubset(sel)
			if !kit.SameInts(snap, sel) {
				return fmt.Errorf("step %d: GetSubset changed the list of features", step)
			}
			nm = &ref{y: append([]float64{}, cm.y...), tname: cm.tname, target: len(sel)}
			for _, v := range sel {
				nm.names = append(nm.names, cm.names[v])
				nm.cols = append(nm.cols, append([]float64{}, cm.cols[v]...))
			}
		case "copy":
			nd = cur.Copy()
			if !nd.IsEqual(cur) || !cur.IsEqual(nd) {
				return fmt.Errorf("step %d: the copy differs", step)
			}
		case "write":
			r, k := op.B%len(cm.y), op.B/7%len(cm.cols)
			cur.X.Set(r, k, float64(op.B)+0.5)
			cm.cols[k][r] = float64(op.B) + 0.5
		case "writey":
			cur.Y[op.B%len(cm.y)] = float64(op.B)
			cm.y[op.B%len(cm.y)] = float64(op.B)
		case "rename":
			k := op.B % len(cm.cols)
			name := "renamed" + strconv.Itoa(step)
			pos := k
			if k >= cm.target {
				pos++
			}
			cur.Names[pos] = name
			cm.names[k] = name
		case "equal":
			nd2 := cur.Copy()
			kinds := op.B % 10
			r, k := op.B/9%len(cm.y), op.B/11%len(cm.cols)
			want := false
			what := ""
			switch kinds {
			case 0:
				v := nd2.X.At(r, k)
				nd2.X.Set(r, k, v+1e-7*(1+math.Abs(v)))
				what = "a value of X"
			case 1:
				nd2.Y[r] += 1e-7 * (1 + math.Abs(nd2.Y[r]))
				what = "a value of Y"
			case 2:
				nd2.Names[op.B/9%len(nd2.Names)] += "'"
				what = "a name"
			case 3:
				nd2.TargetCol = (nd2.TargetCol + 1) % len(nd2.Names)
				what = "the target column"
			case 4:
				nd2.X.Set(r, k, nd2.X.At(r, k)+2e-11)
				nd2.Y[r] -= 2e-11
				want = true
				what = "values by 2e-11"
			case 5:
				q := mat.NewDense(len(cm.y)+1, len(cm.cols), nil)
				q.Slice(0, len(cm.y), 0, len(cm.cols)).(*mat.Dense).Copy(nd2.X)
				nd2.X = q
				nd2.Y = append(nd2.Y, 0)
				what = "the number of rows"
			case 6:
				q := mat.NewDense(len(cm.y), len(cm.cols)+1, nil)
				q.Slice(0, len(cm.y), 0, len(cm.cols)).(*mat.Dense).Copy(nd2.X)
				nd2.X = q
				nd2.Names = append(nd2.Names, "extra")
				what = "the number of columns"
			case 7:
				v := nd2.X.At(r, k)
				nd2.X.Set(r, k, -v-1)
				what = "a value of X"
			case 8:
				if len(nd2.Names) < 2 {
					continue
				}
				nd2.Names[0], nd2.Names[1] = nd2.Names[1], nd2.Names[0]
				what = "the order of the names"
			case 9:
				nd2.Names = append(nd2.Names, "extra")
				what = "the number of names"
			}
			if cur.IsEqual(nd2) != want || nd2.IsEqual(cur) != want {
				return fmt.Errorf("step %d: datasets that differ in %s: IsEqual is %v and %v", step, what, cur.IsEqual(nd2), nd2.IsEqual(cur))
			}
			o.Label("IsEqual: " + what)
		}
		if nd != nil {
			if err := nm.check(nd, tol); err != nil {
				return fmt.Errorf("step %d (%s): %w", step, op.Kind, err)
			}
			if tol > 0 {
				// continue with the rounded values
				for i := range nm.y {
					nm.y[i] = nd.Y[i]
					for j := range nm.cols {
						nm.cols[j][i] = nd.X.At(i, j)
					}
				}
			}
			ds, ms = append(ds, nd), append(ms, nm)
		}
		for k := range ds {
			if err := ms[k].check(ds[k], 0); err != nil {
				return fmt.Errorf("step %d (%s of dataset %d): dataset %d changed: %w", step, op.Kind, i, k, err)
			}
		}
	}
	if len(ds) > 1 && c.P > 1 {
		o.NonTrivial()
	}
	if c.Target < c.P {
		o.Label("target not last")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C18",
		Rule: "A case is a dataset of 1-8 rows and 1-6 features (target at any position, X possibly a view of a larger matrix) and a sequence of 1-8 operations: CSV and JSON round trips, subsets, copies, writes, renames and comparisons with a dataset that differs in one respect; every dataset made so far is compared with its model after each operation. Non-trivial: a derived dataset of a dataset with at least two features.",
		Subs: []kit.Sub{kit.NewSub("history", 60000, 2000000, gen, run), kit.NewSub("history-large", 1200, 6000, kit.Large(gen), run)}})
}
