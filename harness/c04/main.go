// C04: branch and bound finds the optimum.
package main

import (
	"container/list"
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

func gen(t *rapid.T) kit.SearchCase {
	c := kit.GenSearch(t, 8)
	if rapid.IntRange(0, 3).Draw(t, "hascut") == 0 {
		c.Cutoff = rapid.Float64Range(0, 50).Draw(t, "cutoff")
	}
	if c.Root == nil && c.Cutoff == 0 {
		c.NilPar = rapid.Bool().Draw(t, "nilpar")
	}
	return c
}

func run(c kit.SearchCase, o *kit.Obs) error {
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	best, arg := c.Best(fits)
	h, _, err := c.Run()
	if err != nil {
		return err
	}
	if h.Len() == 0 {
		return fmt.Errorf("no model found, although %v has AICc %v", fits[arg].Idx, best)
	}
	tol := kit.ScoreTol * (1 + abs(best))
	top := kit.Nodes(h)[0]
	if err := c.CheckNode(top, fits); err != nil {
		return err
	}
	if top.Score != h.BestScore() {
		return fmt.Errorf("best score %v is not the score of the first model %v", h.BestScore(), top.Score)
	}
	if got := fits[kit.Mask(top.Model)].Aicc; !(got <= best+c.Cutoff+tol) || !(-top.Score <= best+c.Cutoff+tol) {
		return fmt.Errorf("best model %s found has AICc %v (score %v), but features %v have %v (cutoff %v)",
			kit.ModelStr(top.Model), got, top.Score, fits[arg].Idx, best, c.Cutoff)
	}
	if c.P >= 4 && len(fits[arg].Idx) < c.P {
		o.NonTrivial()
	}
	if c.Root != nil {
		o.Label("root given")
	}
	if c.N <= c.P {
		o.Label("n<=p")
	}
	if c.Cutoff > 0 {
		o.Label("cutoff>0")
	}
	if fits[arg].Rss < 1e-12 {
		o.Label("exact fit")
	}
	o.Label("optimum has %d features", len(fits[arg].Idx))
	return nil
}

// schedCase compares schedules of one search.
func runSched(c kit.SearchCase, o *kit.Obs) error {
	_, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	c.Cutoff = 0
	var first float64
	k := 0
	for _, procs := range []int{2, 3, 8} {
		for _, jit := range []int{0, 1, 5} {
			d := c
			d.Procs, d.Jitter = procs, jit
			h, _, err := d.Run()
			if err != nil {
				return err
			}
			if k == 0 {
				first = h.BestScore()
			} else if !kit.Close(first, h.BestScore(), kit.ScoreTol) {
				return fmt.Errorf("best score %v with one schedule, %v with %d processors and jitter %d", first, h.BestScore(), procs, jit)
			}
			k++
		}
	}
	o.NonTrivial()
	return nil
}

func genWider(t *rapid.T) kit.SearchCase { return kit.GenSearchWide(t, 15) }

func genWide(t *rapid.T) kit.SearchCase { return kit.GenSearch(t, 9) }

// genOne: a single processor, where goroutines only interleave by preemption
// (slow, because the idle child workers spin).
func genOne(t *rapid.T) kit.SearchCase {
	c := kit.GenSearch(t, 4)
	c.Procs, c.Jitter = 1, 0
	return c
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// branchCase is one step of the search: a node, a list of known models and a
// queue of nodes waiting.
type branchCase struct {
	kit.Prob
	Model  []bool    `json:"model"`
	Level  int       `json:"level"`
	Flip   bool      `json:"flip"`
	Listed []int     `json:"listed"`
	Cap    int       `json:"cap"`
	Lower  []float64 `json:"lower"`
	Thr    float64   `json:"thr"`
}

func (c branchCase) Smaller() []branchCase {
	var out []branchCase
	for _, q := range c.SmallerProbs(2) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	for i := range c.Listed {
		d := c
		d.Listed = append(append([]int{}, c.Listed[:i]...), c.Listed[i+1:]...)
		out = append(out, d)
	}
	for i := range c.Lower {
		d := c
		d.Lower = append(append([]float64{}, c.Lower[:i]...), c.Lower[i+1:]...)
		out = append(out, d)
	}
	return out
}

func sameBools(a, b []bool) bool {
	for i := range a {
		if len(b) != len(a) || a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func genBranch(t *rapid.T) branchCase {
	c := branchCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 2, MaxN: 24, MinP: 3, MaxP: 7, Shape: rapid.SampledFrom([]int{0, 1, 1, -1}).Draw(t, "shape"), Masked: true, YMin: -7.5, YMax: 5})}
	r := kit.NewRng(rapid.Uint64().Draw(t, "node"))
	for j := 0; j < c.P; j++ {
		c.Model = append(c.Model, r.I(2) == 0)
	}
	c.Level, c.Flip, c.Cap = r.I(c.P), r.I(2) == 0, 1+r.I(6)
	for k := r.I(5); k > 0; k-- {
		c.Listed = append(c.Listed, 1+r.I(1<<uint(c.P)-1))
	}
	vals := []float64{-3, 0, 1, 1.5, 40}
	for k := r.I(12); k > 0; k-- {
		v := vals[r.I(len(vals))]
		if r.I(2) == 0 {
			v = 10 * r.N()
		}
		c.Lower = append(c.Lower, v)
	}
	c.Thr = vals[r.I(len(vals))]
	return c
}

func runBranch(c branchCase, o *kit.Obs) error {
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	X, y := c.Dense(), c.Target()
	h := featselect.NewHighscore(c.Cap)
	best := math.Inf(1)
	for _, m := range c.Listed {
		if len(fits[m].Idx) >= c.N {
			continue
		}
		model := make([]bool, c.P)
		for _, j := range fits[m].Idx {
			model[j] = true
		}
		n := featselect.NewNode(c.P, model)
		n.Score = -fits[m].Aicc
		best = math.Min(best, fits[m].Aicc)
		h.Insert(n)
	}
	parent := featselect.NewNode(c.Level, c.Model)
	child := featselect.CreateChild(parent, c.Flip, X, y, 0, h)
	if parent.Level != c.Level || !sameBools(parent.Model, c.Model) {
		return fmt.Errorf("the parent was changed to level %d, %v", parent.Level, parent.Model)
	}
	fixed := append([]bool{}, c.Model...)
	if c.Flip {
		fixed[c.Level] = !fixed[c.Level]
	}
	low, arg, any := math.Inf(1), 0, false
	for m := 1; m < len(fits); m++ {
		in := len(fits[m].Idx) < c.N
		for j := 0; j <= c.Level && in; j++ {
			in = m>>uint(j)&1 == 1 == fixed[j]
		}
		if in {
			any = true
			if fits[m].Aicc < low {
				low, arg = fits[m].Aicc, m
			}
		}
	}
	if child == nil {
		if tol := kit.ScoreTol * (1 + abs(low)); any && low < best-tol {
			return fmt.Errorf("the branch at level %d of %s is given up, although features %v have AICc %v and the best known model has %v", c.Level+1, kit.ModelStr(fixed), fits[arg].Idx, low, best)
		}
		o.Label("given up")
	} else {
		if child.Level != c.Level+1 || child.WasFlipped != c.Flip || !sameBools(child.Model, fixed) {
			return fmt.Errorf("child (flipped: %v) of level %d, %s is level %d, %s (flipped: %v)", c.Flip, c.Level, kit.ModelStr(c.Model), child.Level, kit.ModelStr(child.Model), child.WasFlipped)
		}
		if any && !(child.Lower <= low+kit.ScoreTol*(1+abs(low))) {
			return fmt.Errorf("lower bound %v of the branch of %s at level %d, features %v have %v", child.Lower, kit.ModelStr(fixed), c.Level+1, fits[arg].Idx, low)
		}
		o.Label("followed")
	}
	if any && len(c.Listed) > 0 {
		o.NonTrivial()
	}
	// the queue
	mk := func() (*list.List, []*featselect.Node) {
		q, nodes := list.New(), []*featselect.Node{}
		for k, v := range c.Lower {
			n := featselect.NewNode(k%c.P, c.Model)
			n.Lower = v
			nodes = append(nodes, n)
			q.PushBack(n)
		}
		return q, nodes
	}
	compare := func(q *list.List, nodes []*featselect.Node, thr, tol float64, what string) error {
		e := q.Front()
		for _, n := range nodes {
			kept := e != nil && e.Value.(*featselect.Node) == n
			if kept {
				e = e.Next()
			}
			if kept && n.Lower > thr+tol || !kept && !(n.Lower > thr-tol) {
				return fmt.Errorf("%s of nodes with bounds %v at %v: the one with %v is kept: %v", what, c.Lower, thr, n.Lower, kept)
			}
		}
		if e != nil {
			return fmt.Errorf("%s changed the order or added nodes", what)
		}
		return nil
	}
	q, nodes := mk()
	featselect.CleanQueue(q, c.Thr)
	if err := compare(q, nodes, c.Thr, 0, "CleanQueue"); err != nil {
		return err
	}
	if len(c.Lower) > 0 {
		q, nodes = mk()
		featselect.RemoveLeastPromising(q)
		if err := compare(q, nodes, kit.MeanRef(c.Lower), 1e-9*(1+kit.MaxAbs(c.Lower)), "RemoveLeastPromising"); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C04",
		Rule:        "A case is a problem with 3-15 features and 2-24 rows (also n<=p, duplicates, exact targets), optional root model, cutoff, list capacity, processor count and scheduling jitter. All non-empty models with fewer features than rows are fitted by an independent SVD (from 10 features on: by elimination) and the optimum compared. Non-trivial: at least 4 features and the optimum is not the full model. branch: a random node is expanded while random models are known: a branch is given up only if it holds no better model, and queues of 0-12 nodes are cut at the given or mean bound (non-trivial: known models exist).",
		Assumptions: []string{"problems where some model's rank or residual is numerically ambiguous are outside the domain", "schedules are varied through GOMAXPROCS and position-dependent yields, not enumerated"},
		Subs: []kit.Sub{
			kit.NewSub("branch", 6000, 100000, genBranch, runBranch),
			kit.NewSub("optimum-again", 600, 10000, gen, kit.Again(run)), kit.NewSub("optimum", 8000, 120000, gen, run),
			kit.NewSub("wide", 120, 3000, genWider, run),
			kit.NewSub("schedules", 400, 6000, genWide, runSched),
			kit.NewSub("oneproc", 24, 200, genOne, run),
		}})
}
