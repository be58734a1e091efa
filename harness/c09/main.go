// C09: simulated annealing returns consistent, good models.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type saCase struct {
	kit.Prob
	Sweeps int   `json:"sweeps"`
	Cost   int   `json:"cost"`
	Seed   int64 `json:"seed"`
}

func (c saCase) Smaller() []saCase {
	var out []saCase
	for _, q := range c.SmallerProbs(4) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 1 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			out = append(out, d)
		}
	}
	return out
}

var costs = []struct {
	name string
	fn   func(int, int, float64) float64
	ref  func(int, int, float64) float64
}{
	{"aic", featselect.Aic, kit.AicRef},
	{"aicc", featselect.Aicc, kit.AiccRef},
	{"bic", featselect.Bic, kit.BicRef},
	{"penalised rss", pen, pen},
	{"number", cnt, cnt},
}

func pen(k, n int, rss float64) float64 { return 5*rss + float64(k)/float64(n) }
func cnt(k, n int, rss float64) float64 { return 3*math.Abs(float64(k)-2) + math.Sqrt(rss)/10 }

func gen(t *rapid.T) saCase {
	c := saCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 4, MaxN: 24, MinP: 1, MaxP: 8, BigN: 120, BigP: 24, MinNoise: 0.05, YMin: -7.5, YMax: 0.5})}
	c.Sweeps = rapid.IntRange(1, 3).Draw(t, "sweeps")
	c.Cost = rapid.IntRange(0, len(costs)-1).Draw(t, "cost")
	c.Seed = int64(rapid.IntRange(1, 1<<40).Draw(t, "seed"))
	return c
}

func genOpt(t *rapid.T) saCase {
	c := saCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 6, MaxN: 20, MinP: 2, MaxP: 5, MinNoise: 0.2, YMin: -7.5, YMax: 0.5})}
	c.Sweeps = 40
	c.Cost = rapid.IntRange(0, len(costs)-1).Draw(t, "cost")
	c.Seed = int64(rapid.IntRange(1, 1<<40).Draw(t, "seed"))
	return c
}

// genList draws a problem with 15 or 31 admissible models, searched for long.
func genList(t *rapid.T) saCase {
	c := saCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 13, MaxN: 24, MinP: 4, MaxP: 5, MinNoise: 0.2, YMin: -7.5, YMax: 0.5})}
	c.Sweeps = rapid.IntRange(120, 200).Draw(t, "sweeps")
	c.Cost = rapid.IntRange(0, len(costs)-1).Draw(t, "cost")
	c.Seed = int64(rapid.IntRange(1, 1<<40).Draw(t, "seed"))
	return c
}

// runList: every model is visited many times at temperatures above the range of
// costs, hence the list consists of the ten best.
func runList(c saCase, o *kit.Obs) error {
	fits, shaky := kit.AllModels(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	cost := costs[c.Cost]
	var all []float64
	for _, f := range fits[1:] {
		if len(f.Idx) < c.N/2 {
			all = append(all, cost.ref(len(f.Idx), c.N, math.Max(f.Rss, kit.RssTol)))
		}
	}
	sort.Float64s(all)
	if len(all) < 14 || all[len(all)-1]-all[0] > 100 {
		return kit.ErrSkip
	}
	rand.Seed(c.Seed)
	res := featselect.SelectModelSA(c.Dense(), c.Target(), c.Sweeps, cost.fn)
	var got []float64
	for _, it := range res.Scores.Items {
		got = append(got, -it.Score)
	}
	sort.Float64s(got)
	if len(got) != 10 {
		return fmt.Errorf("%d of %d models are listed", len(got), len(all))
	}
	for i, v := range got {
		if !kit.Close(v, all[i], kit.ScoreTol) {
			return fmt.Errorf("the listed costs are %v, the lowest of all models are %v", got, all[:10])
		}
	}
	o.NonTrivial()
	return nil
}

func (c *saCase) check(sel []int, coeff []float64) error {
	if len(sel) == 0 {
		return fmt.Errorf("empty selection")
	}
	if len(sel) >= c.N/2 {
		return fmt.Errorf("%d features selected for %d data points", len(sel), c.N)
	}
	for i, v := range sel {
		if v < 0 || v >= c.P || (i > 0 && v <= sel[i-1]) {
			return fmt.Errorf("selection %v is not an ascending list of features", sel)
		}
	}
	return kit.CheckLS(&c.Prob, sel, coeff)
}

func maskOf(sel []int) int {
	m := 0
	for _, v := range sel {
		m |= 1 << uint(v)
	}
	return m
}

func runSA(c saCase, o *kit.Obs, optimum bool) error {
	var fits []kit.ModelFit
	shaky := false
	if c.P <= 8 {
		fits, shaky = kit.AllModels(&c.Prob)
		if shaky {
			return kit.ErrSkip
		}
	}
	cost := costs[c.Cost]
	rand.Seed(c.Seed)
	X, y := c.Dense(), c.Target()
	res := featselect.SelectModelSA(X, y, c.Sweeps, cost.fn)
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) {
		return fmt.Errorf("the search changed the caller's data")
	}
	if err := c.check(res.Selected, res.Coeff); err != nil {
		return fmt.Errorf("returned model: %w", err)
	}
	refCost := func(m int) float64 {
		if fits == nil { // too many models to fit all of them
			var idx []int
			for j := 0; j < c.P; j++ {
				if m>>uint(j)&1 == 1 {
					idx = append(idx, j)
				}
			}
			A := c.Cols().Pick(idx)
			if s := kit.SingularValues(A); s[len(s)-1] < 1e-3 {
				shaky = true
			}
			return cost.ref(len(idx), c.N, math.Max(kit.RssRef(A, kit.LeastSquares(A, c.Y, 1e-6), c.Y), kit.RssTol))
		}
		return cost.ref(len(fits[m].Idx), c.N, math.Max(fits[m].Rss, kit.RssTol))
	}
	if res.Scores == nil || len(res.Scores.Items) == 0 || len(res.Scores.Items) > 10 || res.Scores.BestItem == nil {
		return fmt.Errorf("bad score list %+v", res.Scores)
	}
	seen := map[int]bool{}
	best := math.Inf(-1)
	for i, it := range res.Scores.Items {
		if err := c.check(it.Selection, it.Coeff); err != nil {
			return fmt.Errorf("list item %d: %w", i, err)
		}
		m := maskOf(it.Selection)
		if seen[m] {
			return fmt.Errorf("selection %v is listed twice", it.Selection)
		}
		seen[m] = true
		if want := -refCost(m); !kit.Close(it.Score, want, kit.ScoreTol) && !shaky {
			return fmt.Errorf("item %v has score %v, minus its %s is %v", it.Selection, it.Score, cost.name, want)
		}
		best = math.Max(best, it.Score)
	}
	bi := res.Scores.BestItem
	if bi.Score != best || !seen[maskOf(bi.Selection)] || (!kit.Close(bi.Score, -refCost(maskOf(bi.Selection)), kit.ScoreTol) && !shaky) {
		return fmt.Errorf("best item %v has score %v, the best listed score is %v", bi.Selection, bi.Score, best)
	}
	if own := -refCost(maskOf(res.Selected)); !shaky && !(own <= best+kit.ScoreTol*(1+math.Abs(best))) {
		return fmt.Errorf("returned model %v has score %v, better than the best listed %v", res.Selected, own, best)
	}
	if optimum {
		opt, arg := math.Inf(1), 0
		lo, hi := math.Inf(1), math.Inf(-1)
		for m := 1; m < len(fits); m++ {
			if len(fits[m].Idx) < c.N/2 {
				v := refCost(m)
				if v < opt {
					opt, arg = v, m
				}
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
		}
		if hi-lo > 300 {
			return kit.ErrSkip
		}
		if !kit.Close(-best, opt, kit.ScoreTol) {
			return fmt.Errorf("best cost found is %v with %v, but %v has %v (%s, %d sweeps)", -best, bi.Selection, fits[arg].Idx, opt, cost.name, c.Sweeps)
		}
	}
	if len(seen) > 2 {
		o.NonTrivial()
	}
	o.Label(cost.name)
	if c.N/2-1 < c.P {
		o.Label("size limit active")
	}
	if len(res.Scores.Items) == 10 {
		o.Label("full list")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C09",
		Rule:        "consistent: a problem with 4-24 rows and 1-8 features, one of five cost functions, 1-3 sweeps and a random seed; every listed model is recomputed independently. optimum: at most 5 features and 40 sweeps, compared with enumeration of all admissible models. list: 4-5 features and 120-200 sweeps, the list compared with the ten best of all models. Non-trivial: more than two models listed / the ten best compared.",
		Assumptions: []string{"numerically ambiguous problems are outside the domain", "optimality is asserted only for cost ranges below 300, far below the initial temperature, where every model is visited with overwhelming probability"},
		Subs: []kit.Sub{
			kit.NewSub("consistent", 3000, 40000, gen, func(c saCase, o *kit.Obs) error { return runSA(c, o, false) }),
			kit.NewSub("consistent-again", 150, 3000, gen, kit.Again(func(c saCase, o *kit.Obs) error { return runSA(c, o, false) })),
			kit.NewSub("consistent-large", 240, 1500, kit.Large(gen), func(c saCase, o *kit.Obs) error { return runSA(c, o, false) }),
			kit.NewSub("optimum", 240, 3000, genOpt, func(c saCase, o *kit.Obs) error { return runSA(c, o, true) }),
			kit.NewSub("list", 60, 800, genList, runList),
		}})
}
