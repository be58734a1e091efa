// C23: feature-set representations convert exactly.
package main

import (
	"fmt"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type bitOp struct {
	Set bool `json:"set"` // otherwise flip
	Idx int  `json:"idx"`
}

type bitCase struct {
	Size int     `json:"size"`
	Ops  []bitOp `json:"ops"`
}

func (c bitCase) Smaller() []bitCase {
	var out []bitCase
	for _, l := range kit.Without(c.Ops) {
		d := c
		d.Ops = l
		out = append(out, d)
	}
	return out
}

func genBits(t *rapid.T) bitCase {
	c := bitCase{Size: rapid.OneOf(rapid.IntRange(0, 70), rapid.SampledFrom([]int{1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 128, 300})).Draw(t, "size")}
	if kit.IsLarge() {
		c.Size = rapid.IntRange(60, 1500).Draw(t, "size large")
	}
	if c.Size > 0 {
		nops := 40
		if c.Size > 100 {
			nops = 12
		}
		c.Ops = kit.List(t, rapid.Custom(func(t *rapid.T) bitOp {
			return bitOp{rapid.Bool().Draw(t, "set"), rapid.IntRange(0, c.Size-1).Draw(t, "idx")}
		}), 0, nops, "ops")
	}
	return c
}

func runBits(c bitCase, o *kit.Obs) error {
	m := featselect.NewModel(c.Size)
	ref := make([]bool, c.Size)
	for i := -1; i < len(c.Ops); i++ {
		if i >= 0 {
			if c.Ops[i].Set {
				m.Set(c.Ops[i].Idx)
				ref[c.Ops[i].Idx] = true
			} else {
				m.Flip(c.Ops[i].Idx)
				ref[c.Ops[i].Idx] = !ref[c.Ops[i].Idx]
			}
		}
		for j := range ref {
			if m.Get(j) != ref[j] {
				return fmt.Errorf("after operation %d bit %d is %v", i, j, m.Get(j))
			}
		}
		b := m.ToBools()
		if kit.ModelStr(b) != kit.ModelStr(ref) {
			return fmt.Errorf("after operation %d ToBools is %s, want %s", i, kit.ModelStr(b), kit.ModelStr(ref))
		}
		for j := range b {
			b[j] = !b[j]
		}
		if kit.ModelStr(m.ToBools()) != kit.ModelStr(ref) {
			return fmt.Errorf("ToBools shares the model's memory")
		}
	}
	if len(c.Ops) > 2 {
		o.NonTrivial()
	}
	return nil
}

type convCase struct {
	Model []bool `json:"model"`
	Perm  []int  `json:"perm"`
	Rep   int    `json:"rep"`
}

type wideCase struct {
	P     int       `json:"p"`
	Sel   []int     `json:"sel"`
	Coeff []float64 `json:"coeff"`
}

func genWide(t *rapid.T) wideCase {
	c := wideCase{P: 1<<uint(rapid.IntRange(11, 18).Draw(t, "bits")) + rapid.IntRange(-3, 3).Draw(t, "off")}
	r := kit.NewRng(rapid.Uint64().Draw(t, "sel"))
	in := map[int]bool{}
	for k := rapid.IntRange(1, 60).Draw(t, "k"); k > 0; k-- {
		v := r.I(c.P)
		switch r.I(4) {
		case 0:
			v = c.P - 1 - r.I(40)
		case 1:
			v = r.I(40)
		}
		if !in[v] {
			in[v] = true
			c.Sel = append(c.Sel, v)
			c.Coeff = append(c.Coeff, r.N())
		}
	}
	return c
}

func (c wideCase) Smaller() []wideCase {
	var out []wideCase
	for i := range c.Sel {
		out = append(out, wideCase{c.P, append(append([]int{}, c.Sel[:i]...), c.Sel[i+1:]...), append(append([]float64{}, c.Coeff[:i]...), c.Coeff[i+1:]...)})
	}
	return out
}

// few of very many features
func runWide(c wideCase, o *kit.Obs) error {
	ref := make([]bool, c.P)
	coef := make([]float64, c.P)
	for i, v := range c.Sel {
		ref[v] = true
		coef[v] = c.Coeff[i]
	}
	idx := kit.IdxOf(ref)
	m := featselect.Selected2Model(append([]int{}, c.Sel...), c.P)
	if len(m) != c.P || kit.ModelStr(m) != kit.ModelStr(ref) {
		return fmt.Errorf("Selected2Model(%v, %d) has features %v", c.Sel, c.P, kit.IdxOf(m))
	}
	if s := featselect.SelectedFeatures(m); !kit.SameInts(s, idx) {
		return fmt.Errorf("SelectedFeatures gives %v instead of %v", s, idx)
	}
	if n := featselect.NumFeatures(m); n != len(idx) {
		return fmt.Errorf("NumFeatures is %d instead of %d", n, len(idx))
	}
	if f := featselect.FullCoeffVector(c.P, c.Sel, c.Coeff); !kit.SameSlice(f, coef) {
		return fmt.Errorf("FullCoeffVector(%d, %v) differs", c.P, c.Sel)
	}
	bits := featselect.NewModel(c.P)
	for i, v := range c.Sel {
		if i%2 == 0 {
			bits.Set(v)
		} else {
			bits.Flip(v)
		}
	}
	if kit.ModelStr(bits.ToBools()) != kit.ModelStr(ref) {
		return fmt.Errorf("bit array of %v is %v", c.Sel, kit.IdxOf(bits.ToBools()))
	}
	for _, v := range c.Sel {
		if !bits.Get(v) {
			return fmt.Errorf("bit %d of %v is not set", v, c.Sel)
		}
	}
	it := featselect.NewSAItem(m)
	if !kit.SameInts(it.Selection, idx) || len(it.Coeff) != len(idx) {
		return fmt.Errorf("annealing item: %v, %d coefficients", it.Selection, len(it.Coeff))
	}
	n := featselect.NewNode(c.P, m)
	for k, j := range idx {
		n.Coeff[k] = coef[j]
	}
	sp := n.ToSparseCoeff()
	if !kit.SameInts(sp.Selection, idx) || !kit.SameSlice(featselect.FullCoeffVector(c.P, sp.Selection, sp.Coeff), coef) {
		return fmt.Errorf("sparse form has features %v instead of %v", sp.Selection, idx)
	}
	if len(c.Sel) > 1 {
		o.NonTrivial()
	}
	return nil
}

func genConv(t *rapid.T) convCase {
	p := kit.Upto(t, 0, 30, 400, "p")
	c := convCase{Model: make([]bool, p)}
	for i := range c.Model {
		c.Model[i] = rapid.Bool().Draw(t, "b")
	}
	c.Perm = rapid.Permutation(kit.IdxOf(c.Model)).Draw(t, "perm")
	c.Rep = rapid.IntRange(0, 3).Draw(t, "rep")
	return c
}

func runConv(c convCase, o *kit.Obs) error {
	idx := kit.IdxOf(c.Model)
	p := len(c.Model)
	model := append([]bool{}, c.Model...)
	if n := featselect.NumFeatures(model); n != len(idx) {
		return fmt.Errorf("NumFeatures is %d, want %d", n, len(idx))
	}
	if s := featselect.SelectedFeatures(model); !kit.SameInts(s, idx) {
		return fmt.Errorf("SelectedFeatures is %v, want %v", s, idx)
	}
	// any order, with repetitions
	list := append([]int{}, c.Perm...)
	for i := 0; i < c.Rep && len(c.Perm) > 0; i++ {
		list = append(list, c.Perm[i%len(c.Perm)])
	}
	keep := append([]int{}, list...)
	back := featselect.Selected2Model(list, p)
	if kit.ModelStr(back) != kit.ModelStr(c.Model) || !kit.SameInts(list, keep) {
		return fmt.Errorf("Selected2Model(%v) is %s, want %s", keep, kit.ModelStr(back), kit.ModelStr(c.Model))
	}
	it := featselect.NewSAItem(model)
	if !kit.SameInts(it.Selection, idx) || len(it.Coeff) != len(idx) {
		return fmt.Errorf("annealing item of %s: %v, %d coefficients", kit.ModelStr(c.Model), it.Selection, len(it.Coeff))
	}
	bits := featselect.NewModel(p)
	for _, v := range c.Perm {
		bits.Set(v)
	}
	if kit.ModelStr(bits.ToBools()) != kit.ModelStr(c.Model) {
		return fmt.Errorf("bit array of %v is %s", c.Perm, kit.ModelStr(bits.ToBools()))
	}
	n := featselect.NewNode(0, model)
	for i := range n.Coeff {
		n.Coeff[i] = float64(i) + 0.5
	}
	sp := n.ToSparseCoeff()
	full := featselect.FullCoeffVector(p, sp.Selection, sp.Coeff)
	k := 0
	for j, v := range full {
		want := 0.0
		if c.Model[j] {
			want = float64(k) + 0.5
			k++
		}
		if v != want {
			return fmt.Errorf("coefficient of feature %d is %v, want %v", j, v, want)
		}
	}
	if kit.ModelStr(model) != kit.ModelStr(c.Model) {
		return fmt.Errorf("the model was modified")
	}
	if len(idx) > 0 && len(idx) < p {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C23",
		Rule: "bits: a bit model of up to 300 entries and up to 40 operations, all bits compared after each (non-trivial: more than two operations). convert: a model of up to 30 features in all representations (non-trivial: neither empty nor full). wide: a few features of up to 262000 (non-trivial: at least two).",
		Subs: []kit.Sub{
			kit.NewSub("bits", 90000, 400000, genBits, runBits),
			kit.NewSub("bits-large", 4800, 8000, kit.Large(genBits), runBits),
			kit.NewSub("convert-large", 7200, 10000, kit.Large(genConv), runConv),
			kit.NewSub("wide", 1600, 8000, genWide, runWide),
			kit.NewSub("convert", 180000, 800000, genConv, runConv),
		}})
}
