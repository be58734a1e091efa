package kit

import (
	"fmt"
	"math"
	"runtime"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// SearchCase is a branch-and-bound run: data, parameters and a schedule.
type SearchCase struct {
	Prob
	Root     []bool  `json:"root,omitempty"`
	Cutoff   float64 `json:"cutoff,omitempty"`
	Cap      int     `json:"cap"`
	MaxQueue int     `json:"maxqueue,omitempty"` // 0: the default
	NilPar   bool    `json:"nilparams,omitempty"`
	Procs    int     `json:"procs"`
	Jitter   int     `json:"jitter,omitempty"`
	Reuse    bool    `json:"reuse,omitempty"`
}

// Smaller proposes reductions.
func (c SearchCase) Smaller() []SearchCase {
	var out []SearchCase
	for _, q := range c.SmallerProbs(2) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 3 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			if c.Root != nil {
				d.Root = append(append([]bool{}, c.Root[:j]...), c.Root[j+1:]...)
			}
			out = append(out, d)
		}
	}
	if c.Jitter > 0 {
		d := c
		d.Jitter = 0
		out = append(out, d)
	}
	if c.Procs != 4 {
		d := c
		d.Procs = 4
		out = append(out, d)
	}
	return out
}

// GenSearch draws a search case. Roughly one in six targets is an exact
// combination of features.
func GenSearch(t *rapid.T, maxP int) SearchCase {
	c := SearchCase{}
	shape := rapid.SampledFrom([]int{0, 0, 1, 1, 1, -1}).Draw(t, "shape")
	po := ProbOpts{MinN: 2, MaxN: 24, MinP: 3, MaxP: maxP, Shape: shape, Masked: true, YMin: -7.5, YMax: 5}
	if rapid.IntRange(0, 19).Draw(t, "long") == 11 && maxP > 6 {
		// many rows
		po.MinN, po.MaxN, po.MaxP, po.Shape, po.MinNoise = 60, 600, 6, 1, 0.3
	}
	c.Prob = GenProb(t, po)
	if rapid.IntRange(0, 5).Draw(t, "exact") == 0 {
		r := NewRng(rapid.Uint64().Draw(t, "exactSeed"))
		b := make([]float64, c.P)
		for k := 0; k < 1+r.I(3); k++ {
			b[r.I(c.P)] = float64(1 + r.I(4))
		}
		for i := range c.Y {
			c.Y[i] = 0
			for j := range b {
				c.Y[i] += b[j] * c.At(i, j)
			}
		}
		c.Kind += "+exact"
		if r.I(3) == 0 {
			// almost exact: residuals on both sides of the floor of the score
			f := math.Pow(10, -8+4*r.F())
			for i := range c.Y {
				c.Y[i] = 1e-3*c.Y[i] + f*r.N()
			}
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "root") {
	case 1, 2:
		c.Root = make([]bool, c.P)
		for i := range c.Root {
			c.Root[i] = rapid.Bool().Draw(t, "rootBit")
		}
	case 3:
		c.Root = make([]bool, c.P)
		for i := range c.Root {
			c.Root[i] = true
		}
	}
	c.Cap = rapid.SampledFrom([]int{1, 2, 3, 5, 10, 1000}).Draw(t, "cap")
	c.Procs = rapid.SampledFrom([]int{2, 3, 4, 8}).Draw(t, "procs")
	c.Jitter = rapid.SampledFrom([]int{0, 0, 1, 3, 7}).Draw(t, "jitter")
	return c
}

// GenSearchWide draws a search with 10 to maxP well-conditioned features.
func GenSearchWide(t *rapid.T, maxP int) SearchCase {
	c := SearchCase{}
	c.Prob = GenProb(t, ProbOpts{MinN: 14, MaxN: 60, MinP: 10, MaxP: maxP, Shape: 1, MinNoise: 0.2, Masked: true, YMin: -7, YMax: 5, Kinds: []string{"gauss", "gauss", "int", "poly"}})
	if rapid.IntRange(0, 2).Draw(t, "root") == 0 {
		c.Root = make([]bool, c.P)
		for i := range c.Root {
			c.Root[i] = rapid.Bool().Draw(t, "rootBit")
		}
	}
	c.Cap = rapid.SampledFrom([]int{2, 10, 60, 300}).Draw(t, "cap")
	c.Procs = rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "procs")
	return c
}

// Run performs the search. It returns the list, the final progress and an
// error when the caller's data or parameters were changed.
func (c *SearchCase) Run() (*featselect.Highscore, *featselect.SearchProgress, error) {
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	var params *featselect.SelectModelOptParams
	if !c.NilPar {
		params = featselect.NewSelectModelOptParams()
		if c.Root != nil {
			params.RootModel = append([]bool{}, c.Root...)
		}
		params.Cutoff = c.Cutoff
		if c.MaxQueue > 0 {
			params.MaxQueueSize = c.MaxQueue
		}
	}
	dense := c.Dense()
	var X mat.Matrix = dense
	if c.Jitter > 0 {
		X = &JitterMatrix{Matrix: dense, Every: c.Jitter, Yield: runtime.Gosched}
	}
	y := c.Target()
	h := featselect.NewHighscore(c.Cap)
	sp := &featselect.SearchProgress{}
	var before featselect.SelectModelOptParams
	if params != nil {
		before = *params
	}
	featselect.SelectModel(X, y, h, sp, params)
	if params != nil {
		if params.Cutoff != before.Cutoff || params.MaxQueueSize != before.MaxQueueSize ||
			(params.RootModel == nil) != (c.Root == nil) || ModelStr(params.RootModel) != ModelStr(c.Root) {
			return h, sp, fmt.Errorf("the search changed the caller's parameters: root %v -> %v", ModelStr(c.Root), ModelStr(params.RootModel))
		}
	}
	if !c.SameX(dense) || !SameSlice(y, c.Y) {
		return h, sp, fmt.Errorf("the search changed the caller's data")
	}
	// the caller goes on to use what it owns for something else
	var snap []Node
	for _, n := range Nodes(h) {
		snap = append(snap, Node{append([]bool{}, n.Model...), append([]float64{}, n.Coeff...), n.Score})
	}
	if params != nil {
		for i := range params.RootModel {
			params.RootModel[i] = !params.RootModel[i]
		}
	}
	for i := range y {
		y[i] = -7
		for j := 0; j < c.P; j++ {
			dense.Set(i, j, 13)
		}
	}
	for i, n := range Nodes(h) {
		if ModelStr(n.Model) != ModelStr(snap[i].Model) || !SameSlice(n.Coeff, snap[i].Coeff) || n.Score != snap[i].Score {
			return h, sp, fmt.Errorf("entry %d of the list changes from %s to %s when the caller changes its own parameters and data afterwards", i, ModelStr(snap[i].Model), ModelStr(n.Model))
		}
	}
	return h, sp, nil
}

// Best returns the reference optimum over the models with at least one and
// fewer than n features.
func (c *SearchCase) Best(fits []ModelFit) (float64, int) {
	best, arg := math.Inf(1), 0
	for m := 1; m < len(fits); m++ {
		if len(fits[m].Idx) < c.N && fits[m].Aicc < best {
			best, arg = fits[m].Aicc, m
		}
	}
	return best, arg
}

// CheckNode verifies that a listed model is truthful.
func (c *SearchCase) CheckNode(n *featselect.Node, fits []ModelFit) error {
	if len(n.Model) != c.P {
		return fmt.Errorf("model %v has %d entries for %d features", ModelStr(n.Model), len(n.Model), c.P)
	}
	k := featselect.NumFeatures(n.Model)
	if k == 0 || k >= c.N {
		return fmt.Errorf("model %s with %d features listed for %d data points", ModelStr(n.Model), k, c.N)
	}
	f := fits[Mask(n.Model)]
	if !Close(n.Score, -f.Aicc, ScoreTol) {
		return fmt.Errorf("model %s is listed with score %v, its AICc is %v", ModelStr(n.Model), n.Score, f.Aicc)
	}
	return CheckLS(&c.Prob, IdxOf(n.Model), n.Coeff)
}

// Node is a copy of what a listed node says.
type Node struct {
	Model []bool
	Coeff []float64
	Score float64
}

// ScoreTol is the relative tolerance on criterion values.
const ScoreTol = 1e-6

// Nodes lists the nodes of a highscore list.
func Nodes(h *featselect.Highscore) []*featselect.Node {
	var r []*featselect.Node
	for e := h.Items.Front(); e != nil; e = e.Next() {
		r = append(r, e.Value.(*featselect.Node))
	}
	return r
}
