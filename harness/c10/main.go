// C10: the annealing score list keeps the best distinct selections.
package main

import (
	"fmt"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type item struct {
	Sel   uint8   `json:"sel"`
	Score float64 `json:"score"`
}

type saCase struct {
	Cap   int    `json:"cap"`
	Items []item `json:"items"`
}

func (c saCase) Smaller() []saCase {
	var out []saCase
	for _, l := range kit.Without(c.Items) {
		d := c
		d.Items = l
		out = append(out, d)
	}
	if c.Cap > 1 {
		d := c
		d.Cap--
		out = append(out, d)
	}
	return out
}

func gen(t *rapid.T) saCase {
	c := saCase{Cap: kit.Upto(t, 1, 8, 40, "cap")}
	ties := rapid.Bool().Draw(t, "ties")
	width := rapid.SampledFrom([]int{3, 6, 15, 255}).Draw(t, "width")
	most := 40
	if kit.IsLarge() {
		most = 200
		width = 255
	}
	c.Items = kit.List(t, rapid.Custom(func(t *rapid.T) item {
		it := item{Sel: uint8(rapid.IntRange(0, width).Draw(t, "sel"))}
		if ties {
			it.Score = float64(rapid.IntRange(-4, 4).Draw(t, "i"))
		} else {
			it.Score = rapid.Float64Range(-1e5, 1e5).Draw(t, "f")
		}
		return it
	}), 0, most, "items")
	return c
}

func model(sel uint8) []bool {
	m := make([]bool, 8)
	for i := range m {
		m[i] = sel>>uint(i)&1 == 1
	}
	return m
}

func coeff(id, k int) []float64 {
	r := make([]float64, k)
	for i := range r {
		r[i] = float64(id) + float64(i)/16
	}
	return r
}

type entry struct {
	sel   []int
	coeff []float64
	score float64
}

func same(it *featselect.SAItem, e entry) bool {
	return kit.SameInts(it.Selection, e.sel) && kit.SameSlice(it.Coeff, e.coeff) && it.Score == e.score
}

func run(c saCase, o *kit.Obs) error {
	s := featselect.NewSAScore(c.Cap)
	var list []entry
	replaced := 0
	for i, it := range c.Items {
		in := featselect.NewSAItem(model(it.Sel))
		idx := kit.IdxOf(model(it.Sel))
		if !kit.SameInts(in.Selection, idx) || len(in.Coeff) != len(idx) {
			return fmt.Errorf("new item for %v has selection %v and %d coefficients", idx, in.Selection, len(in.Coeff))
		}
		in.Score = it.Score
		copy(in.Coeff, coeff(i, len(idx)))
		e := entry{idx, coeff(i, len(idx)), it.Score}
		dup := false
		for _, x := range list {
			dup = dup || kit.SameInts(x.sel, e.sel)
		}
		if s.Exists(in) != dup {
			return fmt.Errorf("Exists(%v) is %v before insertion %d", idx, !dup, i)
		}
		prev := append([]entry{}, list...)
		s.Insert(in)
		if !s.Exists(in) && (len(prev) < c.Cap || dup) {
			return fmt.Errorf("insertion %d: %v is not in the list", i, idx)
		}
		// expected content: which of several equally bad items is replaced is free
		enters := !dup
		if !dup && len(prev) >= c.Cap {
			min := prev[0].score
			for _, x := range prev {
				if x.score < min {
					min = x.score
				}
			}
			enters = e.score > min
			if enters {
				replaced++
				// remove one minimal item, the one the list dropped
				drop := -1
				for k, x := range prev {
					if x.score != min {
						continue
					}
					found := false
					for _, y := range s.Items {
						found = found || same(y, x)
					}
					if !found {
						drop = k
						break
					}
				}
				if drop < 0 {
					return fmt.Errorf("insertion %d: item %v (score %v) entered a full list or should have, but no worst item (score %v) was dropped: %s", i, idx, e.score, min, show(s))
				}
				list = append(append([]entry{}, prev[:drop]...), prev[drop+1:]...)
			}
		}
		if enters {
			list = append(list, e)
		}
		if len(s.Items) != len(list) {
			return fmt.Errorf("insertion %d: list has %d items, want %d: %s", i, len(s.Items), len(list), show(s))
		}
		for _, x := range list {
			n := 0
			for _, y := range s.Items {
				if same(y, x) {
					n++
				}
			}
			if n != 1 {
				return fmt.Errorf("insertion %d: item %v with score %v and coefficients %v occurs %d times: %s", i, x.sel, x.score, x.coeff, n, show(s))
			}
		}
		best, worst := list[0].score, list[0].score
		for _, x := range list {
			if x.score > best {
				best = x.score
			}
			if x.score < worst {
				worst = x.score
			}
		}
		for _, w := range []struct {
			name string
			it   *featselect.SAItem
			want float64
		}{{"best", s.BestItem, best}, {"worst", s.WorstItem, worst}} {
			if w.it == nil {
				return fmt.Errorf("insertion %d: no %s item", i, w.name)
			}
			in := false
			for _, x := range list {
				in = in || same(w.it, x)
			}
			if w.it.Score != w.want || !in {
				return fmt.Errorf("insertion %d: %s item is %v with score %v, want score %v: %s", i, w.name, w.it.Selection, w.it.Score, w.want, show(s))
			}
		}
	}
	if replaced > 0 {
		o.NonTrivial()
	}
	o.Label("cap=%d", c.Cap)
	return nil
}

func show(s *featselect.SAScore) string {
	r := ""
	for _, it := range s.Items {
		r += fmt.Sprintf("[%v %v %v] ", it.Selection, it.Coeff, it.Score)
	}
	return r
}

func main() {
	kit.Main(&kit.Check{ID: "C10",
		Rule: "A case is a capacity and up to 40 insertions of selections over at most 8 features with frequent repeats and ties; a list model is compared after every insertion. Non-trivial: at least one item is replaced in a full list.",
		Subs: []kit.Sub{kit.NewSub("model", 480000, 2000000, gen, run), kit.NewSub("model-large", 16000, 15000, kit.Large(gen), run)}})
}
