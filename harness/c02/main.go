// C02: information criteria follow their formulas, and the value reported for a
// lasso path node is the criterion of that node.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type critCase struct {
	K   int     `json:"k"`
	N   int     `json:"n"`
	Rss float64 `json:"rss"`
}

func genCrit(t *rapid.T) critCase {
	var n, k int
	switch rapid.IntRange(0, 4).Draw(t, "size") {
	case 4: // very large tables, both sides of powers of two
		e := func(l string) int {
			v := 1<<uint(rapid.IntRange(3, 27).Draw(t, l+" bits")) + rapid.IntRange(-2, 2).Draw(t, l+" off")
			if rapid.Bool().Draw(t, l+" scaled") {
				v = int(float64(v) * rapid.Float64Range(1, 2).Draw(t, l+" factor"))
			}
			return v
		}
		n, k = e("n"), e("k")
	case 0:
		n = rapid.IntRange(1, 12).Draw(t, "n")
		k = rapid.IntRange(0, 14).Draw(t, "k")
	case 1: // around the singular point of the correction
		n = rapid.IntRange(2, 400).Draw(t, "n")
		k = n + rapid.IntRange(-4, 3).Draw(t, "dk")
		if k < 0 {
			k = 0
		}
	case 2:
		n = rapid.IntRange(1, 1000000).Draw(t, "n")
		k = rapid.IntRange(0, 5000).Draw(t, "k")
	default:
		n = rapid.IntRange(5, 300).Draw(t, "n")
		k = rapid.IntRange(0, n-1).Draw(t, "k")
	}
	e := rapid.Float64Range(-25, 25).Draw(t, "logrss")
	return critCase{k, n, math.Exp(e)}
}

func runCrit(c critCase, o *kit.Obs) error {
	type cr struct {
		name string
		fn   func(int, int, float64) float64
		ref  func(int, int, float64) float64
	}
	for _, x := range []cr{{"AIC", featselect.Aic, kit.AicRef}, {"AICc", featselect.Aicc, kit.AiccRef}, {"BIC", featselect.Bic, kit.BicRef}} {
		got, want := x.fn(c.K, c.N, c.Rss), x.ref(c.K, c.N, c.Rss)
		scale := math.Abs(want) + float64(c.N)*math.Abs(math.Log(c.Rss)) + 1
		if !(math.Abs(got-want) <= 1e-11*scale) {
			return fmt.Errorf("%s(k=%d, n=%d, rss=%g) = %v, formula gives %v", x.name, c.K, c.N, c.Rss, got, want)
		}
		// a better fit is never penalised, an extra feature always is
		if more := x.fn(c.K, c.N, c.Rss*1.5); more <= got && x.ref(c.K, c.N, c.Rss*1.5)-want > 1e-11*scale {
			return fmt.Errorf("%s does not increase with the residual (k=%d n=%d rss=%g)", x.name, c.K, c.N, c.Rss)
		}
		if x.name != "BIC" || c.N > 1 {
			if more := x.fn(c.K+1, c.N, c.Rss); more <= got && x.ref(c.K+1, c.N, c.Rss)-want > 1e-11*scale {
				return fmt.Errorf("%s does not increase with the number of features (k=%d n=%d rss=%g): %v -> %v", x.name, c.K, c.N, c.Rss, got, more)
			}
		}
	}
	o.NonTrivial()
	switch {
	case c.K > 5000:
		o.Label("k>5000")
	case c.K >= c.N:
		o.Label("k>=n")
	case c.K == c.N-1:
		o.Label("k=n-1")
	case c.K == c.N-2:
		o.Label("k=n-2")
	case c.K == 0:
		o.Label("k=0")
	default:
		o.Label("0<k<n-2")
	}
	return nil
}

type node struct {
	Sel   []int     `json:"sel"`
	Coeff []float64 `json:"coeff"`
	Lamb  float64   `json:"lamb"`
}

type pathCase struct {
	kit.Prob
	Nodes []node `json:"nodes"`
}

func genPath(t *rapid.T) pathCase {
	p := kit.GenProb(t, kit.ProbOpts{MinN: 2, MaxN: 30, MinP: 1, MaxP: 10, BigN: 400, BigP: 60})
	c := pathCase{Prob: p}
	r := kit.NewRng(rapid.Uint64().Draw(t, "nodes"))
	k := kit.Upto(t, 1, 6, 60, "num")
	for i := 0; i < k; i++ {
		var nd node
		nd.Lamb = 1 / float64(i+1)
		if i > 0 && r.I(3) == 0 {
			// the selection of the node before, some coefficients changed
			last := c.Nodes[i-1]
			nd.Sel = append([]int{}, last.Sel...)
			nd.Coeff = append([]float64{}, last.Coeff...)
			nd.Coeff[r.I(len(nd.Coeff))] += r.N()
			c.Nodes = append(c.Nodes, nd)
			continue
		}
		for j := 0; j < p.P; j++ {
			if r.I(2) == 0 {
				nd.Sel = append(nd.Sel, j)
				v := 2 * r.N()
				if r.I(8) == 0 {
					v *= []float64{0, 0, 1e-12, 1e-6}[r.I(4)] // selected all the same
				}
				nd.Coeff = append(nd.Coeff, v)
			}
		}
		if len(nd.Sel) == 0 {
			nd.Sel = []int{r.I(p.P)}
			nd.Coeff = []float64{r.N()}
		}
		c.Nodes = append(c.Nodes, nd)
	}
	return c
}

func runPath(c pathCase, o *kit.Obs) error {
	var path featselect.LassoLarsPath
	names := make([]string, c.P+1)
	for i := range names {
		names[i] = fmt.Sprintf("f%d", i)
	}
	path.Dset = &featselect.Dataset{X: c.Dense(), Y: c.Target(), Names: names, TargetCol: c.P}
	for _, n := range c.Nodes {
		path.LassoLarsNodes = append(path.LassoLarsNodes, featselect.NewLassoLarsNode(n.Coeff, n.Lamb, n.Sel))
	}
	type arg struct {
		k, n int
		rss  float64
	}
	var seen []arg
	custom := func(k, n int, rss float64) float64 {
		seen = append(seen, arg{k, n, rss})
		return float64(k)*1000 + float64(n) + 1/(1+rss)
	}
	aicc, bic, aic := path.GetCriteria(featselect.Aicc), path.GetCriteria(featselect.Bic), path.GetCriteria(featselect.Aic)
	cus := path.GetCriteria(custom)
	if len(aicc) != len(c.Nodes) || len(bic) != len(c.Nodes) || len(aic) != len(c.Nodes) || len(cus) != len(c.Nodes) {
		return fmt.Errorf("%d criteria for %d nodes", len(aicc), len(c.Nodes))
	}
	A := c.Cols()
	for i, n := range c.Nodes {
		rss := kit.RssRef(A.Pick(n.Sel), n.Coeff, c.Y)
		k := len(n.Sel)
		for _, x := range []struct {
			name      string
			got, want float64
		}{{"AICc", aicc[i], kit.AiccRef(k, c.N, rss)}, {"BIC", bic[i], kit.BicRef(k, c.N, rss)}, {"AIC", aic[i], kit.AicRef(k, c.N, rss)},
			{"custom criterion", cus[i], float64(k)*1000 + float64(c.N) + 1/(1+rss)}} {
			if !kit.Close(x.got, x.want, 1e-8) {
				return fmt.Errorf("node %d (%v): %s is %v, want %v", i, n.Sel, x.name, x.got, x.want)
			}
		}
	}
	if len(c.Nodes) > 1 {
		o.NonTrivial()
	}
	if !c.SameX(path.Dset.X) || !kit.SameSlice(path.Dset.Y, c.Y) {
		return fmt.Errorf("GetCriteria modified the dataset")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C02",
		Rule: "Formula cases: (k, n, residual) triples with k on both sides of n-1, n up to 1e6, residual over 20 decades; all count. Path cases: a regression problem with arbitrary nodes (sorted selections, arbitrary coefficients); non-trivial when the path has at least two nodes.",
		Subs: []kit.Sub{
			kit.NewSub("formula", 200000, 4000000, genCrit, runCrit),
			kit.NewSub("path-again", 3000, 50000, genPath, kit.Again(runPath)), kit.NewSub("path", 30000, 500000, genPath, runPath),
			kit.NewSub("path-large", 1200, 6000, kit.Large(genPath), runPath),
		}})
}
