// C07: the highscore list keeps the best entries in order.
package main

import (
	"encoding/json"
	"fmt"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type op struct {
	Kind  string  `json:"k"` // insert, again, fresh, zero, used
	Score float64 `json:"s,omitempty"`
	Bits  uint8   `json:"b,omitempty"`
}

type hsCase struct {
	MaxItems int  `json:"maxItems"`
	Ops      []op `json:"ops"`
	Diff     int  `json:"diff"`
}

func (c hsCase) Smaller() []hsCase {
	var out []hsCase
	for _, l := range kit.Without(c.Ops) {
		d := c
		d.Ops = l
		out = append(out, d)
	}
	if c.MaxItems > 1 {
		d := c
		d.MaxItems--
		out = append(out, d)
	}
	return out
}

func gen(t *rapid.T) hsCase {
	c := hsCase{MaxItems: rapid.SampledFrom([]int{1, 2, 2, 3, 4, 6, 10, 40}).Draw(t, "max"), Diff: rapid.IntRange(0, 5).Draw(t, "diff")}
	small := rapid.Bool().Draw(t, "ties")
	sc := rapid.Custom(func(t *rapid.T) float64 {
		if small {
			return float64(rapid.IntRange(-3, 3).Draw(t, "i"))
		}
		return rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
	})
	if rapid.IntRange(0, 19).Draw(t, "max huge") == 0 {
		c.MaxItems = 1<<uint(rapid.SampledFrom([]int{7, 8, 15, 16, 20, 31, 32, 40}).Draw(t, "max bits")) + rapid.IntRange(-2, 5).Draw(t, "max off")
	}
	most := 30
	if kit.IsLarge() {
		most = 300
		c.MaxItems = rapid.IntRange(20, 200).Draw(t, "max large")
	}
	c.Ops = kit.List(t, rapid.Custom(func(t *rapid.T) op {
		k := rapid.SampledFrom([]string{"insert", "insert", "insert", "insert", "insert", "insert", "insert", "again", "fresh", "zero", "used"}).Draw(t, "kind")
		if k == "again" {
			return op{Kind: k, Bits: rapid.Uint8().Draw(t, "which")}
		}
		if k != "insert" {
			return op{Kind: k}
		}
		return op{k, sc.Draw(t, "score"), rapid.Uint8().Draw(t, "bits")}
	}), 0, most, "ops")
	return c
}

func node(o op, id int) *featselect.Node {
	m := make([]bool, 8)
	for i := range m {
		m[i] = o.Bits>>uint(i)&1 == 1
	}
	n := featselect.NewNode(id, m)
	n.Score = o.Score
	n.Lower = -float64(id)
	n.Upper = float64(id) + 0.25
	for i := range n.Coeff {
		n.Coeff[i] = float64(id) + float64(i)/8
	}
	return n
}

func insertModel(model []*featselect.Node, n *featselect.Node, capacity int) []*featselect.Node {
	pos := len(model)
	for i, m := range model {
		if m.Score < n.Score {
			pos = i
			break
		}
	}
	if pos >= capacity {
		return model
	}
	model = append(model, nil)
	copy(model[pos+1:], model[pos:])
	model[pos] = n
	if len(model) > capacity {
		model = model[:capacity]
	}
	return model
}

func same(h *featselect.Highscore, model []*featselect.Node, maxItems int) error {
	got := kit.Nodes(h)
	if h.MaxItems != maxItems {
		return fmt.Errorf("MaxItems is %d, want %d", h.MaxItems, maxItems)
	}
	desc := func() string {
		var g, w []float64
		for _, n := range got {
			g = append(g, n.Score)
		}
		for _, n := range model {
			w = append(w, n.Score)
		}
		return fmt.Sprintf("list has scores %v, want %v (capacity from MaxItems %d)", g, w, maxItems)
	}
	if len(got) != len(model) || h.Len() != len(model) {
		return fmt.Errorf("%s", desc())
	}
	for i := range got {
		if got[i].Level != model[i].Level || got[i].Score != model[i].Score || !featselect.NodesEqual(got[i], model[i]) {
			return fmt.Errorf("entry %d is node %d (score %v), want node %d: %s", i, got[i].Level, got[i].Score, model[i].Level, desc())
		}
	}
	sc := h.Scores()
	if len(sc) != len(model) {
		return fmt.Errorf("Scores has %d entries, want %d", len(sc), len(model))
	}
	for i := range sc {
		if sc[i] != model[i].Score {
			return fmt.Errorf("Scores %v, %s", sc, desc())
		}
	}
	best := 0.0
	if len(model) > 0 {
		best = model[0].Score
	}
	if h.BestScore() != best {
		return fmt.Errorf("BestScore is %v, want %v", h.BestScore(), best)
	}
	return nil
}

func run(c hsCase, o *kit.Obs) error {
	capacity := c.MaxItems - 1
	if capacity < 1 {
		capacity = 1
	}
	h := featselect.NewHighscore(c.MaxItems)
	var model []*featselect.Node
	ins := 0
	for i, p := range c.Ops {
		switch p.Kind {
		case "insert":
			n := node(p, i+1)
			h.Insert(n)
			model = insertModel(model, node(p, i+1), capacity)
			ins++
		case "again": // a node that is already in the list
			if l := kit.Nodes(h); len(l) > 0 {
				k := int(p.Bits) % len(l)
				h.Insert(l[k])
				model = insertModel(model, model[k], capacity)
				ins++
			}
		default:
			b, err := json.Marshal(h)
			if err != nil {
				return fmt.Errorf("encoding failed: %v", err)
			}
			var h2 *featselect.Highscore
			switch p.Kind {
			case "fresh":
				h2 = featselect.NewHighscore(3)
			case "zero":
				h2 = &featselect.Highscore{}
			case "used":
				h2 = featselect.NewHighscore(7)
				for k := 0; k < 5; k++ {
					h2.Insert(node(op{Score: float64(k * 100)}, 1000+k))
				}
			}
			if err := json.Unmarshal(b, h2); err != nil {
				return fmt.Errorf("decoding failed: %v", err)
			}
			if !h.Equal(h2) || !h2.Equal(h) {
				return fmt.Errorf("op %d: decoded list is not equal to the encoded one: %s", i, b)
			}
			o.Label("json " + p.Kind)
			h = h2
		}
		if err := same(h, model, c.MaxItems); err != nil {
			return fmt.Errorf("after op %d (%s): %w", i, p.Kind, err)
		}
	}
	if ins > capacity && capacity > 1 {
		o.NonTrivial()
	}
	// a second list with the same history is equal, one with a difference is not
	build := func(max int, mod func(i int, n *featselect.Node)) *featselect.Highscore {
		g := featselect.NewHighscore(max)
		for i, n := range model {
			d := *n
			d.Model = append([]bool{}, n.Model...)
			d.Coeff = append([]float64{}, n.Coeff...)
			if mod != nil {
				mod(i, &d)
			}
			g.Insert(&d)
		}
		return g
	}
	if g := build(c.MaxItems, nil); !g.Equal(h) || !h.Equal(g) {
		return fmt.Errorf("lists with the same nodes are not equal")
	}
	if len(model) > 0 {
		last := len(model) - 1
		var g *featselect.Highscore
		switch c.Diff {
		case 0:
			g = build(c.MaxItems+1, nil)
		case 1:
			g = build(c.MaxItems, func(i int, n *featselect.Node) {
				if i == last {
					n.Score -= 1e-3
				}
			})
		case 2:
			g = build(c.MaxItems, func(i int, n *featselect.Node) {
				if i == 0 {
					n.Model[3] = !n.Model[3]
				}
			})
		case 3:
			g = build(c.MaxItems, func(i int, n *featselect.Node) {
				if i == last {
					n.Level++
				}
			})
		case 4:
			g = build(c.MaxItems, nil)
			g.Items.Remove(g.Items.Back())
		case 5:
			g = build(c.MaxItems, func(i int, n *featselect.Node) {
				if i == last {
					n.Upper += 1
				}
			})
		}
		if g.Equal(h) || h.Equal(g) {
			return fmt.Errorf("lists that differ (variant %d) are equal", c.Diff)
		}
		// lists that share nodes
		for k := range model {
			g := featselect.NewHighscore(c.MaxItems)
			for i, n := range kit.Nodes(h) {
				if i == k {
					d := *n
					d.Score, d.Lower = n.Score, n.Lower-1
					n = &d
				}
				g.Insert(n)
			}
			if g.Equal(h) || h.Equal(g) {
				return fmt.Errorf("lists that share all nodes but number %d, which differ, are equal", k)
			}
			if k > 12 {
				break
			}
		}
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C07",
		Rule: "A case is a capacity and up to 30 operations (insert with frequent ties, encode and decode into a fresh, zero or used list); a sorted-list model is compared after every operation. Non-trivial: more insertions than the capacity, which is above one.",
		Subs: []kit.Sub{kit.NewSub("model", 120000, 1000000, gen, run), kit.NewSub("model-large", 3000, 8000, kit.Large(gen), run)}})
}
