// C15: nested lasso repeats LARS on the surviving features.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type nestedCase struct {
	kit.Prob
	Target  int     `json:"target"` // position of the target among the names
	Keep    float64 `json:"keep"`
	LambMin float64 `json:"lambmin"` // fraction of the largest lambda
	Names   int     `json:"names"`
}

func (c nestedCase) Smaller() []nestedCase {
	var out []nestedCase
	for _, q := range c.SmallerProbs(4) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 2 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			if d.Target > d.P {
				d.Target = d.P
			}
			out = append(out, d)
		}
	}
	return out
}

func gen(t *rapid.T) nestedCase {
	c := nestedCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 5, MaxN: 40, MinP: 2, MaxP: 10, BigN: 120, BigP: 25, MinNoise: 0.2, Masked: true,
		Kinds: []string{"gauss", "gauss", "corr"}, Bias: rapid.SampledFrom([]int{1, 1, 0}).Draw(t, "biased")})}
	c.Target = rapid.IntRange(0, c.P).Draw(t, "target")
	c.Keep = rapid.SampledFrom([]float64{0.3, 0.5, 0.65, 0.8, 0.9, 0.99}).Draw(t, "keep")
	c.LambMin = math.Pow(10, rapid.Float64Range(-2.5, -0.3).Draw(t, "lambmin"))
	c.Names = rapid.IntRange(0, 5).Draw(t, "names")
	return c
}

func names(c nestedCase) []string {
	out := make([]string, c.P+1)
	for i := range out {
		// names whose order differs from the column order
		out[i] = fmt.Sprintf("v%d", (i*7+c.Names*3)%31)
	}
	return out
}

func run(c nestedCase, o *kit.Obs) error {
	A := c.Cols()
	sdY := kit.StdRef(c.Y)
	if sdY < 1e-6 {
		return kit.ErrSkip
	}
	// a constant first column stands for the intercept
	bias := kit.StdRef(A[0]) < 1e-10
	if bias {
		for i := range A[0] {
			A[0][i] = 1
			c.X[i*c.P] = 1
		}
	}
	_, z0, _ := kit.NormRef(A, c.Y)
	muY := kit.MeanRef(c.Y)
	B0, _, _ := kit.NormRef(A, c.Y)
	lmax := 0.0
	for j := range B0 {
		lmax = math.Max(lmax, math.Abs(kit.Dot(B0[j], z0)))
	}
	lmin := math.Max(c.LambMin*lmax, 2e-3)
	if lmin > 0.8*lmax {
		return kit.ErrSkip
	}
	// reference rounds
	type round struct {
		nodes      []kit.RefNode // Sel and B refer to original columns
		aicc, bic  []float64
		kept, want int
	}
	var rounds []round
	cur := make([]int, c.P)
	for j := range cur {
		cur[j] = j
	}
	for {
		B, z, _ := kit.NormRef(A.Pick(cur), c.Y)
		path, gap, smin, ok := kit.RefPath(B, z, lmin, lmin-1e-3)
		if !ok || gap < 1e-4 || smin < 0.1 || len(path) == 0 {
			return kit.ErrSkip
		}
		if path[len(path)-1].Lamb < lmin+1e-4 {
			return kit.ErrSkip
		}
		var rd round
		var order []int
		num := int(c.Keep * float64(len(cur)))
		done := false
		for _, q := range path {
			rss := kit.RssRef(B, q.B, z)
			rd.aicc = append(rd.aicc, kit.AiccRef(len(q.Sel), c.N, rss))
			rd.bic = append(rd.bic, kit.BicRef(len(q.Sel), c.N, rss))
			n := kit.RefNode{Lamb: q.Lamb, B: make([]float64, c.P)}
			for _, s := range q.Sel {
				n.Sel = append(n.Sel, cur[s])
				n.B[cur[s]] = q.B[s]
				if !done && !has(order, cur[s]) {
					order = append(order, cur[s])
				}
			}
			if len(order) >= num {
				done = true
			}
			rd.nodes = append(rd.nodes, n)
		}
		rd.want = num
		rounds = append(rounds, rd)
		if num <= 2 {
			break
		}
		cur = order
		if len(rounds) > 60 {
			return kit.ErrSkip
		}
	}
	// the dataset
	d := &featselect.Dataset{X: c.Dense(), Y: c.Prob.Target(), Names: names(c), TargetCol: c.Target}
	snap := d.Copy()
	var est featselect.MorsePenroseCD
	res := featselect.NestedLasso(d, lmin, c.Keep, &est)
	if !c.SameX(d.X) || !kit.SameSlice(snap.Y, d.Y) || d.TargetCol != snap.TargetCol || fmt.Sprint(d.Names) != fmt.Sprint(snap.Names) {
		return fmt.Errorf("the dataset of the caller was changed")
	}
	if res.Dset == nil || !res.Dset.IsEqual(snap) {
		return fmt.Errorf("the result does not hold the original dataset")
	}
	if len(res.Paths) != len(rounds) {
		return fmt.Errorf("%d rounds instead of %d", len(res.Paths), len(rounds))
	}
	for k, rd := range rounds {
		p := res.Paths[k]
		if len(p.Nodes) != len(rd.nodes) || len(p.Aicc) != len(p.Nodes) || len(p.Bic) != len(p.Nodes) {
			return fmt.Errorf("round %d has %d nodes, %d AICc and %d BIC values; the LARS path has %d nodes", k, len(p.Nodes), len(p.Aicc), len(p.Bic), len(rd.nodes))
		}
		for m, q := range rd.nodes {
			nd := p.Nodes[m]
			if !kit.Close(nd.Lamb, q.Lamb, 1e-6) {
				return fmt.Errorf("round %d node %d has lambda %v instead of %v", k, m, nd.Lamb, q.Lamb)
			}
			got, err := kit.FullVec(c.P, nd.Selection, nd.Coeff)
			if err != nil {
				return fmt.Errorf("round %d node %d: %w", k, m, err)
			}
			want := make([]float64, c.P)
			icpt := muY
			for _, j := range q.Sel {
				want[j] = q.B[j] * sdY / kit.StdRef(A[j])
				icpt -= want[j] * kit.MeanRef(A[j])
			}
			sel := map[int]bool{}
			for _, j := range q.Sel {
				sel[j] = true
			}
			if bias {
				want[0] = icpt
				sel[0] = true
				if nd.Selection[0] != 0 {
					return fmt.Errorf("round %d node %d: the bias is not first in %v", k, m, nd.Selection)
				}
			}
			if len(nd.Selection) != len(sel) {
				return fmt.Errorf("round %d node %d selects %v instead of %v", k, m, nd.Selection, q.Sel)
			}
			for _, j := range nd.Selection {
				if !sel[j] {
					return fmt.Errorf("round %d node %d selects %v instead of %v", k, m, nd.Selection, q.Sel)
				}
			}
			for j := range want {
				if !kit.CloseScale(got[j], want[j], 1e-6, 1+kit.MaxAbs(want)) {
					return fmt.Errorf("round %d node %d: coefficients %v instead of %v", k, m, got, want)
				}
			}
			if !kit.Close(p.Aicc[m], rd.aicc[m], 1e-6*float64(c.N)) || !kit.Close(p.Bic[m], rd.bic[m], 1e-6*float64(c.N)) {
				return fmt.Errorf("round %d node %d: AICc %v, BIC %v instead of %v, %v", k, m, p.Aicc[m], p.Bic[m], rd.aicc[m], rd.bic[m])
			}
		}
	}
	if len(rounds) > 1 {
		o.NonTrivial()
	}
	if len(rounds) > 2 {
		o.Label("three rounds or more")
	}
	if bias {
		o.Label("bias")
	}
	if c.Target < c.P {
		o.Label("target not last")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C15",
		Rule:        "A case is a dataset with 5-40 rows and 2-10 columns (also fewer rows than columns) in general position (mostly with a column of ones first), names whose order differs from the columns, the target at any position, a fraction to keep and a smallest lambda. Non-trivial: at least two rounds.",
		Assumptions: []string{"general position in every round (events at least 1e-4 apart, singular values of active sets at least 0.1, smallest lambda not within 1e-4 of an event)"},
		Subs:        []kit.Sub{kit.NewSub("nested-again", 2000, 40000, gen, kit.Again(run)), kit.NewSub("nested", 30000, 500000, gen, run), kit.NewSub("nested-large", 1200, 5000, kit.Large(gen), run)}})
}

func has(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}
