// C03: the bounds computed for a branch enclose the criterion of every model in it.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type bCase struct {
	kit.Prob
	Model []bool `json:"model"`
	Start int    `json:"start"`
}

func (c bCase) Smaller() []bCase {
	var out []bCase
	for _, q := range c.SmallerProbs(2) {
		out = append(out, bCase{q, c.Model, c.Start})
	}
	return out
}

func gen(t *rapid.T) bCase {
	p := kit.GenProb(t, kit.ProbOpts{MinN: 2, MaxN: 25, MinP: 1, MaxP: 7, BigN: 200, BigP: 12, MaxScale: 1, Masked: true, YMin: -7.5, YMax: 5, Shape: rapid.SampledFrom([]int{-1, 0, 1, 1}).Draw(t, "shape")})
	m := make([]bool, p.P)
	for i := range m {
		m[i] = rapid.Bool().Draw(t, "bit")
	}
	return bCase{p, m, rapid.IntRange(0, p.P).Draw(t, "start")}
}

func run(c bCase, o *kit.Obs) error {
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	y := c.Target()
	X := c.Dense()
	model := append([]bool{}, c.Model...)
	yy := kit.Dot(c.Y, c.Y)
	slack := 1e-10 * yy
	sub := 0
	gcs := kit.Mask(c.Model[:c.Start])
	for j := c.Start; j < c.P; j++ {
		gcs |= 1 << uint(j)
	}
	for _, kind := range []string{"AIC", "AICc"} {
		fn, ref := featselect.BoundsAIC, kit.AicRef
		if kind == "AICc" {
			fn, ref = featselect.BoundsAICC, kit.AiccRef
		}
		if gcs == 0 {
			// the branch holds only the empty model: nothing to bound
			o.Label("empty branch")
			return nil
		}
		lo, hi := fn(model, c.Start, X, y)
		if math.IsNaN(lo) || math.IsNaN(hi) {
			return fmt.Errorf("%s bounds are NaN", kind)
		}
		// every non-empty model of the branch
		free := c.P - c.Start
		for m := 0; m < 1<<uint(free); m++ {
			mask := kit.Mask(c.Model[:c.Start]) | m<<uint(c.Start)
			if mask == 0 {
				continue
			}
			sub++
			f := fits[mask]
			v1 := ref(len(f.Idx), c.N, math.Max(f.Rss+slack, kit.RssTol))
			v2 := ref(len(f.Idx), c.N, math.Max(math.Max(f.Rss-slack, f.Rss*0.999999), kit.RssTol))
			tol := 1e-8 * (1 + math.Abs(v1))
			if !(lo <= v1+tol) {
				return fmt.Errorf("%s lower bound %v of branch %s/%d exceeds %v of its model %v", kind, lo, kit.ModelStr(c.Model), c.Start, v1, f.Idx)
			}
			if !(hi >= v2-tol-1e-5*float64(c.N)) {
				return fmt.Errorf("%s upper bound %v of branch %s/%d is below %v of its model %v", kind, hi, kit.ModelStr(c.Model), c.Start, v2, f.Idx)
			}
		}
		if free == 0 {
			f := fits[kit.Mask(c.Model)]
			want := ref(len(f.Idx), c.N, math.Max(f.Rss, kit.RssTol))
			tol := 1e-6 * (1 + math.Abs(want))
			if len(f.Idx) < c.N && (!(math.Abs(lo-want) <= tol) || !(math.Abs(hi-want) <= tol)) {
				return fmt.Errorf("%s bounds [%v, %v] of the single model %s do not equal its value %v", kind, lo, hi, kit.ModelStr(c.Model), want)
			}
		} else {
			// both halves of a branch have bounds inside the bounds of the branch
			for _, flip := range []bool{false, true} {
				ch := append([]bool{}, c.Model...)
				ch[c.Start] = flip
				any := false
				for j := 0; j <= c.Start; j++ {
					any = any || ch[j]
				}
				if !any && c.Start+1 == c.P {
					continue
				}
				l2, h2 := fn(ch, c.Start+1, X, y)
				if !(l2 >= lo-1e-6*(1+math.Abs(lo))) || !(h2 <= hi+1e-6*(1+math.Abs(hi))) {
					return fmt.Errorf("%s bounds [%v, %v] of half a branch are wider than [%v, %v] of the whole", kind, l2, h2, lo, hi)
				}
			}
		}
	}
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) || kit.ModelStr(model) != kit.ModelStr(c.Model) {
		return fmt.Errorf("bounds modified their input")
	}
	if sub > 2 {
		o.NonTrivial()
	}
	o.Label("start=%d", c.Start)
	if c.N <= c.P {
		o.Label("n<=p")
	}
	if kit.Mask(c.Model[:c.Start]) == 0 {
		o.Label("empty prefix")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C03",
		Rule:        "A case is a problem with up to 7 features, a model and a branching level; every non-empty model of the branch is fitted by an independent least-squares routine and compared with the bounds. Non-trivial: the branch holds at least two models.",
		Assumptions: []string{"problems with models whose rank or residual is numerically ambiguous are outside the domain"},
		Subs:        []kit.Sub{kit.NewSub("enclose-again", 4000, 40000, gen, kit.Again(run)), kit.NewSub("enclose", 64000, 300000, gen, run), kit.NewSub("enclose-large", 2400, 4000, kit.Large(gen), run)}})
}
