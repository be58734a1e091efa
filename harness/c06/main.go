// C06: exhaustive search ranks every model.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type bfCase struct {
	kit.Prob
}

func (c bfCase) Smaller() []bfCase {
	var out []bfCase
	min := 1
	if c.N > c.P+1 {
		min = c.P + 2
	}
	for _, q := range c.SmallerProbs(min) {
		out = append(out, bfCase{q})
	}
	if c.P > 1 {
		for j := 0; j < c.P; j++ {
			out = append(out, bfCase{c.DropCol(j)})
		}
	}
	return out
}

func gen(t *rapid.T) bfCase {
	return bfCase{kit.GenProb(t, kit.ProbOpts{MinN: 3, MaxN: 30, MinP: 1, MaxP: 8, Shape: 1, YMin: -7.5, YMax: 5})}
}

// genAny draws problems that may have fewer rows than features and targets
// that some model reproduces exactly.
func genAny(t *rapid.T) bfCase {
	p := kit.GenProb(t, kit.ProbOpts{MinN: 1, MaxN: 12, MinP: 1, MaxP: 8})
	if rapid.IntRange(0, 3).Draw(t, "exact") == 0 {
		r := kit.NewRng(rapid.Uint64().Draw(t, "exact seed"))
		for i := range p.Y {
			p.Y[i] = 0
		}
		for k := 0; k < 2; k++ {
			j, w := r.I(p.P), 1+r.F()
			for i := range p.Y {
				p.Y[i] += w * p.X[i*p.P+j]
			}
		}
		p.Kind += "+exact"
	}
	return bfCase{p}
}

func run(c bfCase, o *kit.Obs) error {
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	// the criterion of an exact fit is noise: such models must be listed, in
	// order, with a least-squares solution, but their scores are not compared
	exact := false
	for m, f := range fits[1:] {
		if f.Rss < 1e-9 {
			exact = true
			fits[m+1].Aicc = math.NaN()
		}
	}
	X, y := c.Dense(), c.Target()
	h := featselect.BruteForceSelect(X, y)
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) {
		return fmt.Errorf("the search changed the caller's data")
	}
	nodes := kit.Nodes(h)
	if len(nodes) != len(fits)-1 {
		return fmt.Errorf("%d models listed, %d non-empty models exist", len(nodes), len(fits)-1)
	}
	sc := kit.SearchCase{Prob: c.Prob}
	seen := map[int]bool{}
	for i, n := range nodes {
		if len(n.Model) != c.P {
			return fmt.Errorf("model %s has %d entries for %d features", kit.ModelStr(n.Model), len(n.Model), c.P)
		}
		m := kit.Mask(n.Model)
		if seen[m] {
			return fmt.Errorf("model %s listed twice", kit.ModelStr(n.Model))
		}
		seen[m] = true
		if math.IsNaN(n.Score) {
			return fmt.Errorf("model %s has no score", kit.ModelStr(n.Model))
		}
		if f := fits[m]; !math.IsNaN(f.Aicc) && !kit.Close(n.Score, -f.Aicc, kit.ScoreTol) {
			return fmt.Errorf("model %s is listed with score %v, its AICc is %v", kit.ModelStr(n.Model), n.Score, f.Aicc)
		}
		if err := kit.CheckLS(&c.Prob, kit.IdxOf(n.Model), n.Coeff); err != nil {
			return err
		}
		if i > 0 && n.Score > nodes[i-1].Score {
			return fmt.Errorf("entry %d has score %v after %v", i, n.Score, nodes[i-1].Score)
		}
	}
	if c.P >= 2 {
		o.NonTrivial()
	}
	o.Label("p=%d n>p:%v", c.P, c.N > c.P)
	if exact {
		o.Label("exact fit")
		return nil
	}
	if c.N <= c.P {
		return nil // branch and bound leaves out models with as many features as rows
	}
	best, arg := sc.Best(fits)
	if !kit.Close(-h.BestScore(), best, kit.ScoreTol) {
		return fmt.Errorf("best score %v, optimum AICc %v of %v", h.BestScore(), best, fits[arg].Idx)
	}
	// branch and bound agrees with the exhaustive search
	if c.P >= 3 {
		s := kit.SearchCase{Prob: c.Prob, Cap: 10, Procs: 4}
		hb, _, err := s.Run()
		if err != nil {
			return err
		}
		if !kit.Close(hb.BestScore(), h.BestScore(), kit.ScoreTol) {
			return fmt.Errorf("branch and bound finds %v, exhaustive search %v", hb.BestScore(), h.BestScore())
		}
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C06",
		Rule:        "A case is a noisy problem with 1-14 features; the any sub also has as many or fewer rows than features and targets that a model reproduces exactly. Every non-empty model must appear exactly once with its own criterion value, in order. Non-trivial: at least two features.",
		Assumptions: []string{"numerically ambiguous problems are outside the domain; the score of a model that fits exactly is rounding noise and is only required to be ordered"},
		Subs: []kit.Sub{kit.NewSub("enumerate-again", 200, 3000, gen, kit.Again(run)), kit.NewSub("enumerate", 3000, 40000, gen, run),
			kit.NewSub("enumerate-any", 3000, 40000, genAny, run),
			kit.NewSub("enumerate-wide", 60, 1500, func(t *rapid.T) bfCase {
				return bfCase{kit.GenProb(t, kit.ProbOpts{MinN: 14, MaxN: 50, MinP: 9, MaxP: 12, Shape: 1, MinNoise: 0.2, Kinds: []string{"gauss", "int", "poly"}})}
			}, run),
			kit.NewSub("enumerate-huge", 8, 40, func(t *rapid.T) bfCase {
				return bfCase{kit.GenProb(t, kit.ProbOpts{MinN: 16, MaxN: 24, MinP: 13, MaxP: 14, Shape: 1, MinNoise: 0.2, Kinds: []string{"gauss", "int"}})}
			}, run)}})
}
