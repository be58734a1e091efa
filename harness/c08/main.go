// C08: nodes branch exactly and survive JSON.
package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type nodeSpec struct {
	Model []bool    `json:"model"`
	Coeff []float64 `json:"coeff"`
	Level int       `json:"level"`
	Lower float64   `json:"lower"`
	Upper float64   `json:"upper"`
	Score float64   `json:"score"`
}

func (s nodeSpec) node() *featselect.Node {
	return &featselect.Node{Model: append([]bool{}, s.Model...), Coeff: append([]float64{}, s.Coeff...),
		Level: s.Level, Lower: s.Lower, Upper: s.Upper, Score: s.Score}
}

func genSpec(t *rapid.T) nodeSpec {
	p := rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 40)).Draw(t, "p")
	if kit.IsLarge() {
		p = rapid.IntRange(40, 300).Draw(t, "p large")
	}
	s := nodeSpec{Model: make([]bool, p), Coeff: []float64{}}
	fl := rapid.OneOf(rapid.Float64Range(-1e3, 1e3), rapid.Float64Range(-1e300, 1e300), rapid.SampledFrom([]float64{0, 1, -1e100, 1e100, 1e-12, math.MaxFloat64, -math.MaxFloat64, 0.1}))
	for i := range s.Model {
		s.Model[i] = rapid.Bool().Draw(t, "b")
	}
	k := featselect.NumFeatures(s.Model)
	if rapid.IntRange(0, 4).Draw(t, "unfitted") > 0 { // else as created by GetChildNode
		for i := 0; i < k; i++ {
			s.Coeff = append(s.Coeff, fl.Draw(t, "c"))
		}
	}
	s.Level = rapid.IntRange(0, p).Draw(t, "level")
	s.Lower, s.Upper, s.Score = fl.Draw(t, "lo"), fl.Draw(t, "up"), fl.Draw(t, "sc")
	return s
}

func runJSON(s nodeSpec, o *kit.Obs) error {
	n := s.node()
	b, err := json.Marshal(n)
	if err != nil {
		return fmt.Errorf("encoding: %v", err)
	}
	var m featselect.Node
	// decoding replaces what was there, whatever it was
	switch len(s.Model) % 4 {
	case 1:
		old := make([]bool, len(s.Model))
		for i := range old {
			old[i] = !s.Model[i]
		}
		m = *featselect.NewNode(3, old)
	case 2:
		m = *featselect.NewNode(3, []bool{true, true})
	case 3:
		m = featselect.Node{Model: make([]bool, 2*len(s.Model)), Coeff: []float64{7}, Level: 9, Lower: 3, Upper: 4, Score: 5}
		for i := range m.Model {
			m.Model[i] = true
		}
		for range s.Coeff {
			m.Coeff = append(m.Coeff, 6)
		}
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return fmt.Errorf("decoding %s: %v", b, err)
	}
	if kit.ModelStr(m.Model) != kit.ModelStr(s.Model) || !kit.SameSlice(m.Coeff, s.Coeff) || m.Level != s.Level ||
		m.Lower != s.Lower || m.Upper != s.Upper || m.Score != s.Score {
		return fmt.Errorf("node %+v decoded as %+v from %s", *n, m, b)
	}
	if !featselect.NodesEqual(n, &m) || !featselect.NodesEqual(&m, n) {
		return fmt.Errorf("decoded node is not equal to the original: %s", b)
	}
	// the documented interface of the files: selected indices, totals
	var raw map[string]json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	var sel []int
	if err := json.Unmarshal(raw["selected"], &sel); err != nil || !kit.SameInts(sel, kit.IdxOf(s.Model)) {
		return fmt.Errorf("encoded selection %s, want %v", raw["selected"], kit.IdxOf(s.Model))
	}
	if string(raw["totNumFeatures"]) != fmt.Sprint(len(s.Model)) {
		return fmt.Errorf("encoded total %s, want %d", raw["totNumFeatures"], len(s.Model))
	}
	sp := n.ToSparseCoeff()
	if !kit.SameInts(sp.Selection, kit.IdxOf(s.Model)) || !kit.SameSlice(sp.Coeff, s.Coeff) {
		return fmt.Errorf("sparse form %v %v of %s %v", sp.Selection, sp.Coeff, kit.ModelStr(s.Model), s.Coeff)
	}
	if want := len(s.Model) + 8*len(s.Coeff) + 29; n.EstimateMemory() != want {
		return fmt.Errorf("memory estimate %d, want %d", n.EstimateMemory(), want)
	}
	if featselect.NumFeatures(s.Model) != len(kit.IdxOf(s.Model)) {
		return fmt.Errorf("NumFeatures")
	}
	nn := featselect.NewNode(s.Level, s.Model)
	if nn.Level != s.Level || kit.ModelStr(nn.Model) != kit.ModelStr(s.Model) || len(nn.Coeff) != len(kit.IdxOf(s.Model)) {
		return fmt.Errorf("new node does not have the given model, level and one coefficient per feature")
	}
	if len(s.Model) > 0 {
		keep := s.Model[0]
		nn.Model[0] = !nn.Model[0]
		if s.Model[0] != keep {
			return fmt.Errorf("new node shares the caller's model")
		}
	}
	if len(s.Coeff) > 0 {
		o.NonTrivial()
	}
	return nil
}

type eqCase struct {
	A    nodeSpec `json:"a"`
	Mut  int      `json:"mut"`
	Pos  int      `json:"pos"`
	Size float64  `json:"size"`
}

func genEq(t *rapid.T) eqCase {
	s := genSpec(t)
	// moderate magnitudes: the tolerance is absolute
	cl := func(x float64) float64 { return math.Mod(x, 1000) }
	s.Lower, s.Upper, s.Score = cl(s.Lower), cl(s.Upper), cl(s.Score)
	for i := range s.Coeff {
		s.Coeff[i] = cl(s.Coeff[i])
	}
	return eqCase{s, rapid.IntRange(0, 11).Draw(t, "mut"), rapid.IntRange(0, 1000).Draw(t, "pos"),
		rapid.SampledFrom([]float64{1e-6, -1e-3, 0.5, -7}).Draw(t, "size")}
}

func runEq(c eqCase, o *kit.Obs) error {
	a, b := c.A.node(), c.A.node()
	if !featselect.NodesEqual(a, b) {
		return fmt.Errorf("copies of a node are not equal: %+v", c.A)
	}
	what := ""
	switch c.Mut {
	case 0:
		if len(b.Model) == 0 {
			return nil
		}
		// swap in a model with the same number of features, if possible
		i := c.Pos % len(b.Model)
		b.Model[i] = !b.Model[i]
		for j := range b.Model {
			if j != i && b.Model[j] == b.Model[i] {
				b.Model[j] = !b.Model[j]
				break
			}
		}
		what = "model"
	case 1:
		b.Level++
		what = "level"
	case 2:
		b.Lower += c.Size
		what = "lower bound"
	case 3:
		b.Upper += c.Size
		what = "upper bound"
	case 4:
		b.Score += c.Size
		what = "score"
	case 5, 6:
		if len(b.Coeff) == 0 {
			return nil
		}
		b.Coeff[c.Pos%len(b.Coeff)] += c.Size
		what = "coefficient"
	case 7:
		b.Model = append(b.Model, false)
		what = "number of features"
	case 9: // two coefficients with the same sum
		if len(b.Coeff) < 2 {
			return nil
		}
		i := c.Pos % len(b.Coeff)
		j := (i + 1 + c.Pos/7%(len(b.Coeff)-1)) % len(b.Coeff)
		b.Coeff[i] += c.Size
		b.Coeff[j] -= c.Size
		what = "coefficients with equal sum"
	case 10: // in another order
		if len(b.Coeff) < 2 {
			return nil
		}
		i := c.Pos % len(b.Coeff)
		j := (i + 1 + c.Pos/7%(len(b.Coeff)-1)) % len(b.Coeff)
		if !(math.Abs(b.Coeff[i]-b.Coeff[j]) > 1e-6) {
			return nil
		}
		b.Coeff[i], b.Coeff[j] = b.Coeff[j], b.Coeff[i]
		what = "order of coefficients"
	case 11: // two numbers in opposite directions
		f := []*float64{&b.Lower, &b.Upper, &b.Score}
		i := c.Pos % 3
		*f[i] += c.Size
		*f[(i+1)%3] -= c.Size
		what = "two numbers"
	case 8:
		b.Coeff = append(b.Coeff, 0)
		what = "number of coefficients"
	}
	if featselect.NodesEqual(a, b) || featselect.NodesEqual(b, a) {
		return fmt.Errorf("nodes with different %s (by %g) are equal", what, c.Size)
	}
	o.NonTrivial()
	o.Label(what)
	return nil
}

type treeCase struct {
	Root  []bool `json:"root"`
	Level int    `json:"level"`
}

func genTree(t *rapid.T) treeCase {
	p := kit.Upto(t, 1, 9, 14, "p")
	c := treeCase{Root: make([]bool, p)}
	for i := range c.Root {
		c.Root[i] = rapid.Bool().Draw(t, "b")
	}
	c.Level = rapid.IntRange(0, p).Draw(t, "level")
	if rapid.Bool().Draw(t, "top") {
		c.Level = 0
	}
	return c
}

func runTree(c treeCase, o *kit.Obs) error {
	p := len(c.Root)
	root := featselect.NewNode(c.Level, c.Root)
	// the models that count: the root and every flipped node
	seen := map[int]int{kit.Mask(c.Root): 1}
	leaves := map[int]int{}
	stack := []*featselect.Node{root}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		// Gcs and Lcs
		g, l := featselect.Gcs(n.Model, n.Level), featselect.Lcs(n.Model, n.Level)
		if len(g) != p || len(l) != p {
			return fmt.Errorf("Gcs/Lcs have %d/%d entries", len(g), len(l))
		}
		for i := range n.Model {
			wg, wl := true, false
			if i < n.Level {
				wg, wl = n.Model[i], n.Model[i]
			}
			if g[i] != wg || l[i] != wl {
				return fmt.Errorf("Gcs %s, Lcs %s of %s at level %d", kit.ModelStr(g), kit.ModelStr(l), kit.ModelStr(n.Model), n.Level)
			}
		}
		if n.Level == p {
			leaves[kit.Mask(n.Model)]++
			continue
		}
		before := kit.ModelStr(n.Model)
		lvl := n.Level
		for _, flip := range []bool{false, true} {
			ch := n.GetChildNode(flip)
			if kit.ModelStr(n.Model) != before || n.Level != lvl {
				return fmt.Errorf("creating a child changed the parent %s", before)
			}
			want := append([]bool{}, n.Model...)
			if flip {
				want[lvl] = !want[lvl]
			}
			if kit.ModelStr(ch.Model) != kit.ModelStr(want) || ch.Level != lvl+1 || ch.WasFlipped != flip {
				return fmt.Errorf("child (flip %v) of %s at level %d is %s at level %d, flipped %v", flip, before, lvl, kit.ModelStr(ch.Model), ch.Level, ch.WasFlipped)
			}
			if flip {
				seen[kit.Mask(ch.Model)]++
			}
			// children do not share storage with the parent
			ch.Model[0] = !ch.Model[0]
			if kit.ModelStr(n.Model) != before {
				return fmt.Errorf("child shares the parent's model")
			}
			ch.Model[0] = !ch.Model[0]
			stack = append(stack, ch)
		}
	}
	free := p - c.Level
	if len(seen) != 1<<uint(free) || len(leaves) != 1<<uint(free) {
		return fmt.Errorf("%d new models and %d leaves reached, %d exist", len(seen), len(leaves), 1<<uint(free))
	}
	for m, k := range seen {
		if k != 1 || leaves[m] != 1 {
			return fmt.Errorf("model %b is new %d times and a leaf %d times", m, k, leaves[m])
		}
	}
	if free >= 2 {
		o.NonTrivial()
	}
	o.Label("free=%d", free)
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C08",
		Rule: "json: a node with arbitrary flags and finite numbers is encoded and decoded (non-trivial: has coefficients). equal: a node and a copy with one difference (all are non-trivial). tree: a root of up to 9 features is expanded completely (non-trivial: at least two free features).",
		Subs: []kit.Sub{
			kit.NewSub("json", 160000, 1000000, genSpec, runJSON),
			kit.NewSub("equal", 120000, 800000, genEq, runEq),
			kit.NewSub("json-large", 8000, 15000, kit.Large(genSpec), runJSON),
			kit.NewSub("equal-large", 8000, 15000, kit.Large(genEq), runEq),
			kit.NewSub("tree-large", 320, 600, kit.Large(genTree), runTree),
			kit.NewSub("tree", 8000, 60000, genTree, runTree),
		}})
}
