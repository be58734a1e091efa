// C26: path analysis reports the path's own features.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/plotter"
	"gonum.org/v1/plot/vg"
	"gonum.org/v1/plot/vg/draw"
	"gonum.org/v1/plot/vg/recorder"
	"pgregory.net/rapid"

	"verif/kit"
)

type node struct {
	Lamb  float64   `json:"lamb"`
	Sel   []int     `json:"sel"`
	Coeff []float64 `json:"coeff"`
}

type pathCase struct {
	N      int       `json:"n"`
	P      int       `json:"p"`
	X      []float64 `json:"x"`
	Y      []float64 `json:"y"`
	Nodes  []node    `json:"nodes"`
	Num    int       `json:"num"`
	Range  []float64 `json:"range"` // empty: none
	Render bool      `json:"render"`
	Target int       `json:"target"`
}

func (c pathCase) Smaller() []pathCase {
	var out []pathCase
	if len(c.Nodes) > 1 {
		for i := range c.Nodes {
			d := c
			d.Nodes = append(append([]node{}, c.Nodes[:i]...), c.Nodes[i+1:]...)
			out = append(out, d)
		}
	}
	for i, n := range c.Nodes {
		if len(n.Sel) > 1 {
			for k := range n.Sel {
				d := c
				d.Nodes = append([]node{}, c.Nodes...)
				d.Nodes[i] = node{n.Lamb, append(append([]int{}, n.Sel[:k]...), n.Sel[k+1:]...), append(append([]float64{}, n.Coeff[:k]...), n.Coeff[k+1:]...)}
				out = append(out, d)
			}
		}
	}
	return out
}

func gen(t *rapid.T) pathCase {
	c := pathCase{P: kit.Upto(t, 1, 8, 60, "p"), N: kit.Upto(t, 3, 14, 100, "n")}
	m := kit.Upto(t, 1, 10, 80, "nodes")
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	for i := 0; i < c.N*c.P; i++ {
		c.X = append(c.X, r.N())
	}
	for i := 0; i < c.N; i++ {
		c.Y = append(c.Y, 2*r.N())
	}
	lamb := math.Pow(10, 2*r.N())
	// the penalty of a long path stays well above the smallest number
	decay := func() float64 { return math.Pow(0.05+0.9*r.F(), math.Min(1, 80/float64(m))) }
	grow := r.I(2) == 0 // features mostly enter
	in := make([]bool, c.P)
	oneSided := r.I(4)
	scale := 1.0
	if r.I(3) == 0 {
		scale = math.Pow(10, 10*r.F()-5)
	}
	for k := 0; k < m; k++ {
		if grow {
			in[r.I(c.P)] = r.I(6) != 0
		} else {
			for j := range in {
				in[j] = r.I(2) == 0
			}
		}
		n := node{Lamb: lamb}
		if k > 0 && r.I(6) == 0 {
			// the same features, a coefficient or two changed
			last := c.Nodes[k-1]
			n.Sel, n.Coeff = append([]int{}, last.Sel...), append([]float64{}, last.Coeff...)
			n.Coeff[r.I(len(n.Coeff))] += scale * r.N()
			c.Nodes = append(c.Nodes, n)
			lamb *= decay()
			continue
		}
		for j, b := range in {
			if b {
				v := r.N()
				if oneSided == 0 {
					v = math.Abs(v) + 0.5
				} else if oneSided == 1 {
					v = -math.Abs(v) - 0.5
				}
				n.Sel = append(n.Sel, j)
				n.Coeff = append(n.Coeff, scale*v)
			}
		}
		if len(n.Sel) == 0 {
			j := r.I(c.P)
			in[j] = true
			n.Sel, n.Coeff = []int{j}, []float64{r.N()}
		}
		c.Nodes = append(c.Nodes, n)
		lamb *= decay()
	}
	c.Num = rapid.IntRange(0, c.P+2).Draw(t, "num")
	if rapid.Bool().Draw(t, "ranged") {
		c.Range = []float64{rapid.Float64Range(-5, 0).Draw(t, "min"), rapid.Float64Range(0.1, 5).Draw(t, "max")}
		switch rapid.IntRange(0, 4).Draw(t, "signs") {
		case 0: // not around zero
			c.Range[0] = c.Range[1] * rapid.Float64Range(0, 0.9).Draw(t, "above")
		case 1:
			c.Range[1] = c.Range[0] * rapid.Float64Range(0, 0.9).Draw(t, "below")
			c.Range[0] -= 0.1
		case 2:
			f := math.Pow(10, rapid.Float64Range(-5, 5).Draw(t, "size"))
			c.Range[0] *= f
			c.Range[1] *= f
		}
	}
	c.Render = rapid.IntRange(0, 19).Draw(t, "render") == 0
	c.Target = rapid.IntRange(0, c.P).Draw(t, "target")
	return c
}

func (c pathCase) path() *featselect.LassoLarsPath {
	p := &featselect.LassoLarsPath{}
	d := &featselect.Dataset{X: (&kit.Prob{N: c.N, P: c.P, X: c.X}).Dense(), Y: append([]float64{}, c.Y...), TargetCol: c.Target}
	for j := 0; j <= c.P; j++ {
		d.Names = append(d.Names, "f"+strconv.Itoa(j))
	}
	p.Dset = d
	for _, n := range c.Nodes {
		p.LassoLarsNodes = append(p.LassoLarsNodes, featselect.NewLassoLarsNode(n.Coeff, n.Lamb, n.Sel))
	}
	return p
}

func same(p *featselect.LassoLarsPath, c pathCase) error {
	if len(p.LassoLarsNodes) != len(c.Nodes) {
		return fmt.Errorf("%d nodes instead of %d", len(p.LassoLarsNodes), len(c.Nodes))
	}
	for i, n := range c.Nodes {
		q := p.LassoLarsNodes[i]
		if q.Lamb != n.Lamb || !kit.SameInts(q.Selection, n.Sel) || !kit.SameSlice(q.Coeff, n.Coeff) {
			return fmt.Errorf("node %d is %v instead of %v", i, *q, n)
		}
	}
	return nil
}

func rangeIs(a plot.Axis, lo, hi float64) bool {
	return kit.Close(a.Min, lo, 1e-9) && kit.Close(a.Max, hi, 1e-9)
}

// strokes draws a plot and returns the lines and ring centres that were drawn,
// and the transformation of data to points.
func strokes(p *plot.Plot) (lines, rings [][]vg.Point, tr func(plotter.XY) vg.Point) {
	var rec recorder.Canvas
	dc := draw.NewCanvas(&rec, 400, 300)
	p.Draw(dc)
	data := p.DataCanvas(dc)
	tx, ty := p.Transforms(&data)
	tr = func(q plotter.XY) vg.Point { return vg.Point{X: tx(q.X), Y: ty(q.Y)} }
	for _, a := range rec.Actions {
		s, ok := a.(*recorder.Stroke)
		if !ok {
			continue
		}
		var l, r []vg.Point
		for _, e := range s.Path {
			switch e.Type {
			case vg.MoveComp, vg.LineComp:
				l = append(l, e.Pos)
			case vg.ArcComp:
				r = append(r, e.Pos)
			}
		}
		if len(r) > 0 {
			rings = append(rings, r)
		} else {
			lines = append(lines, l)
		}
	}
	return
}

func samePoints(a, b []vg.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(float64(a[i].X-b[i].X)) <= 1e-6 && math.Abs(float64(a[i].Y-b[i].Y)) <= 1e-6) {
			return false
		}
	}
	return true
}

func hasLine(what string, p *plot.Plot, lines [][]vg.Point, tr func(plotter.XY) vg.Point, want plotter.XYs) error {
	w := make([]vg.Point, len(want))
	for i, q := range want {
		w[i] = tr(q)
	}
	for _, l := range lines {
		if samePoints(l, w) {
			return nil
		}
	}
	return fmt.Errorf("the line %v %s is not drawn", want, what)
}

// drawn checks the lines and marks of the plots.
func (c pathCase) drawn(p *featselect.LassoLarsPath, aicc []float64) error {
	course := make([]plotter.XYs, c.P)
	var qual, dev, entry plotter.XYs
	seen := map[int]float64{}
	for i, n := range c.Nodes {
		l := math.Log10(n.Lamb)
		for j := range course {
			v := 0.0
			for k, s := range n.Sel {
				if s == j {
					v = n.Coeff[k]
				}
			}
			course[j] = append(course[j], plotter.XY{X: l, Y: v})
		}
		for _, s := range n.Sel {
			if _, ok := seen[s]; !ok {
				seen[s] = l
			}
			entry = append(entry, plotter.XY{X: float64(s), Y: l})
		}
		A := kit.Cols{}
		for _, j := range n.Sel {
			col := make([]float64, c.N)
			for r := range col {
				col[r] = c.X[r*c.P+j]
			}
			A = append(A, col)
		}
		qual = append(qual, plotter.XY{X: l, Y: aicc[i]})
		dev = append(dev, plotter.XY{X: l, Y: math.Log10(math.Sqrt(kit.RssRef(A, n.Coeff, c.Y) / float64(c.N)))})
	}
	pp := p.PlotPath(nil)
	lines, _, tr := strokes(pp)
	last := 0
	for j := range course {
		if _, ok := seen[j]; ok {
			last = j
		}
	}
	for j := 0; j <= last; j++ {
		if _, ok := seen[j]; !ok {
			continue
		}
		if err := hasLine(fmt.Sprintf("of feature %d", j), pp, lines, tr, course[j]); err != nil {
			return err
		}
	}
	finite := true
	for i := range qual {
		finite = finite && kit.Finite(qual[i].Y, dev[i].Y)
	}
	if finite {
		for _, q := range []struct {
			name string
			p    *plot.Plot
			l    plotter.XYs
		}{{"of the criterion", p.PlotQualityScores(), qual}, {"of the deviations", p.PlotDeviations(), dev}} {
			ls, _, tr := strokes(q.p)
			if q.p.Y.Max-q.p.Y.Min < 1e-9*(1+math.Abs(q.p.Y.Max)) {
				continue
			}
			if err := hasLine(q.name, q.p, ls, tr, q.l); err != nil {
				return err
			}
		}
	}
	var first plotter.XYs
	for j := 0; j < c.P; j++ {
		if l, ok := seen[j]; ok {
			first = append(first, plotter.XY{X: float64(j), Y: l})
		}
	}
	if len(first) < 2 {
		return nil
	}
	pe := p.PlotEntranceTimes()
	ls, rings, tre := strokes(pe)
	if len(rings) != len(entry) {
		return fmt.Errorf("%d marks for %d entries of features", len(rings), len(entry))
	}
	used := make([]bool, len(rings))
	for _, e := range entry {
		found := false
		for k, r := range rings {
			if !used[k] && samePoints(r, []vg.Point{tre(e)}) {
				used[k], found = true, true
				break
			}
		}
		if !found {
			return fmt.Errorf("the presence of feature %v at log lambda %v is not marked", e.X, e.Y)
		}
	}
	same := true // a horizontal line on the border of the plot: nothing to see
	for _, f := range first {
		same = same && f.Y == first[0].Y
	}
	if same && len(c.Nodes) < 2 {
		return nil
	}
	return hasLine("of the first entrances", pe, ls, tre, first)
}

// gaps repeats the checks that make sense for them on a path with nodes
// without features between the others.
func (c pathCase) gaps() error {
	if len(c.X) == 0 {
		return nil
	}
	r := kit.NewRng(math.Float64bits(c.X[0]))
	d := c
	d.Nodes = nil
	for _, n := range c.Nodes {
		for r.I(3) == 0 {
			d.Nodes = append(d.Nodes, node{Lamb: n.Lamb * (1 + r.F())})
		}
		d.Nodes = append(d.Nodes, n)
	}
	for r.I(3) == 0 {
		d.Nodes = append(d.Nodes, node{Lamb: d.Nodes[len(d.Nodes)-1].Lamb * 0.5})
	}
	p, q := c.path(), d.path()
	for j := 0; j <= c.P; j++ {
		xy := q.ExtractPath(j)
		if len(xy) != len(d.Nodes) {
			return fmt.Errorf("course of feature %d has %d points for %d nodes", j, len(xy), len(d.Nodes))
		}
		for i, n := range d.Nodes {
			want := 0.0
			for k, s := range n.Sel {
				if s == j {
					want = n.Coeff[k]
				}
			}
			if xy[i].Y != want || !kit.Close(xy[i].X, math.Log10(n.Lamb), 1e-12) {
				return fmt.Errorf("course of feature %d at node %d of a path with empty nodes %v is %v instead of (%v, %v)", j, i, d.Nodes, xy[i], math.Log10(n.Lamb), want)
			}
		}
	}
	aicc, bic := q.GetCriteria(featselect.Aicc), q.GetCriteria(featselect.Bic)
	A := kit.Cols{}
	for j := 0; j < c.P; j++ {
		A = append(A, make([]float64, c.N))
		for i := range A[j] {
			A[j][i] = c.X[i*c.P+j]
		}
	}
	dmin, dmax, sound := math.Inf(1), math.Inf(-1), true
	for i, n := range d.Nodes {
		full := make([]float64, c.P)
		for k, s := range n.Sel {
			full[s] = n.Coeff[k]
		}
		rss := kit.RssRef(A, full, c.Y)
		if rss < 1e-9 {
			sound = false
			continue
		}
		if wa, wb := kit.AiccRef(len(n.Sel), c.N, rss), kit.BicRef(len(n.Sel), c.N, rss); !kit.Close(aicc[i], wa, 1e-7) || !kit.Close(bic[i], wb, 1e-7) {
			return fmt.Errorf("node %d of a path with empty nodes %v has AICc %v, BIC %v instead of %v, %v", i, d.Nodes, aicc[i], bic[i], wa, wb)
		}
		l := math.Log10(math.Sqrt(rss / float64(c.N)))
		dmin, dmax = math.Min(dmin, l), math.Max(dmax, l)
	}
	if pd := q.PlotDeviations(); sound && dmax-dmin > 1e-6 && (!kit.Close(pd.Y.Min, dmin, 1e-7) || !kit.Close(pd.Y.Max, dmax, 1e-7)) {
		return fmt.Errorf("the deviation plot of a path with empty nodes shows log RMSE %v to %v instead of %v to %v", pd.Y.Min, pd.Y.Max, dmin, dmax)
	}
	for num := 0; num <= c.P; num++ {
		if num == 0 {
			continue // takes the first node, which may be empty here
		}
		if a, b := p.PickMostRelevantFeatures(num), q.PickMostRelevantFeatures(num); !kit.SameInts(a, b) {
			return fmt.Errorf("nodes without features change the %d most relevant features from %v to %v", num, a, b)
		}
	}
	return nil
}

// shuffled repeats the checks that do not depend on the order of the features
// within the nodes on a path where they are in any order.
func (c pathCase) shuffled(lo, hi int, cmin, cmax, lmin, lmax float64) error {
	if len(c.X) == 0 {
		return nil
	}
	r := kit.NewRng(math.Float64bits(c.X[0]) + 1)
	d := c
	d.Nodes = nil
	for _, n := range c.Nodes {
		m := node{Lamb: n.Lamb}
		for _, k := range r.Perm(len(n.Sel)) {
			m.Sel = append(m.Sel, n.Sel[k])
			m.Coeff = append(m.Coeff, n.Coeff[k])
		}
		d.Nodes = append(d.Nodes, m)
	}
	p, q := c.path(), d.path()
	for j := 0; j <= c.P; j++ {
		a, b := p.ExtractPath(j), q.ExtractPath(j)
		for i := range a {
			if len(a) != len(b) || a[i] != b[i] {
				return fmt.Errorf("course of feature %d is %v if nodes list their features in ascending order, but %v for %v", j, a, b, d.Nodes)
			}
		}
	}
	if a, b := q.MaxMinFeatNo(); a != lo || b != hi {
		return fmt.Errorf("MaxMinFeatNo gives %d, %d instead of %d, %d for %v", a, b, lo, hi, d.Nodes)
	}
	for num := 0; num <= c.P; num++ {
		a, b := p.PickMostRelevantFeatures(num), q.PickMostRelevantFeatures(num)
		a, b = append([]int{}, a...), append([]int{}, b...)
		sort.Ints(a)
		sort.Ints(b)
		if !kit.SameInts(a, b) {
			return fmt.Errorf("the %d most relevant features of %v are %v instead of %v", num, d.Nodes, b, a)
		}
	}
	if pp := q.PlotPath(nil); !rangeIs(pp.X, lmin, lmax) || !rangeIs(pp.Y, cmin, cmax) {
		return fmt.Errorf("the path plot of %v shows coefficients from %v to %v instead of %v to %v", d.Nodes, pp.Y.Min, pp.Y.Max, cmin, cmax)
	}
	if pe := q.PlotEntranceTimes(); !rangeIs(pe.X, float64(lo), float64(hi)) || !rangeIs(pe.Y, lmin, lmax) {
		return fmt.Errorf("the entrance plot of %v shows features %v to %v", d.Nodes, pe.X.Min, pe.X.Max)
	}
	b, err := json.Marshal(q)
	if err != nil {
		return err
	}
	if err := same(featselect.LassoLarsPathFromBytes(b), d); err != nil {
		return fmt.Errorf("path read back from JSON: %w", err)
	}
	for i, s := range featselect.LassoNodesSlice2SparsCoeff(q.LassoLarsNodes) {
		if !kit.SameInts(s.Selection, d.Nodes[i].Sel) || !kit.SameSlice(s.Coeff, d.Nodes[i].Coeff) {
			return fmt.Errorf("sparse coefficients of node %d are %v instead of %v", i, s, d.Nodes[i])
		}
	}
	return nil
}

func run(c pathCase, o *kit.Obs) error {
	p := c.path()
	// course of every feature (also one that never enters)
	lo, hi := math.MaxInt32, 0
	cmin, cmax, lmin, lmax := 0.0, 0.0, math.Inf(1), math.Inf(-1)
	for _, n := range c.Nodes {
		l := math.Log10(n.Lamb)
		lmin, lmax = math.Min(lmin, l), math.Max(lmax, l)
		for k, j := range n.Sel {
			if j < lo {
				lo = j
			}
			if j > hi {
				hi = j
			}
			cmin, cmax = math.Min(cmin, n.Coeff[k]), math.Max(cmax, n.Coeff[k])
		}
	}
	for j := 0; j <= c.P; j++ {
		xy := p.ExtractPath(j)
		if len(xy) != len(c.Nodes) {
			return fmt.Errorf("course of feature %d has %d points for %d nodes", j, len(xy), len(c.Nodes))
		}
		for i, n := range c.Nodes {
			want := 0.0
			for k, s := range n.Sel {
				if s == j {
					want = n.Coeff[k]
				}
			}
			if xy[i].Y != want || !kit.Close(xy[i].X, math.Log10(n.Lamb), 1e-12) {
				return fmt.Errorf("course of feature %d at node %d is %v instead of (%v, %v)", j, i, xy[i], math.Log10(n.Lamb), want)
			}
		}
	}
	if a, b := p.MaxMinFeatNo(); a != lo || b != hi {
		return fmt.Errorf("MaxMinFeatNo gives %d, %d instead of %d, %d", a, b, lo, hi)
	}
	if err := c.gaps(); err != nil {
		return err
	}
	if err := c.shuffled(lo, hi, cmin, cmax, lmin, lmax); err != nil {
		return err
	}
	// the most relevant features
	for _, num := range []int{c.Num, 0, 1, c.P, c.P + 5} {
		want := []int{}
		for _, n := range c.Nodes {
			for _, j := range n.Sel {
				known := false
				for _, v := range want {
					known = known || v == j
				}
				if !known {
					want = append(want, j)
				}
			}
			if len(want) >= num {
				break
			}
		}
		if got := p.PickMostRelevantFeatures(num); !kit.SameInts(got, want) {
			return fmt.Errorf("the %d most relevant features are %v instead of %v", num, got, want)
		}
	}
	// criteria
	A := kit.Cols{}
	for j := 0; j < c.P; j++ {
		col := make([]float64, c.N)
		for i := range col {
			col[i] = c.X[i*c.P+j]
		}
		A = append(A, col)
	}
	// whatever criteria are stored
	if c.Num%2 == 0 {
		for i := 0; i < len(c.Nodes)+c.Num%3-1; i++ {
			p.Aicc = append(p.Aicc, 100+float64(i))
		}
	}
	if c.Num%3 == 0 {
		for i := range c.Nodes {
			p.Bic = append(p.Bic, -float64(i))
		}
	}
	aicc, bic := p.GetCriteria(featselect.Aicc), p.GetCriteria(featselect.Bic)
	amin, amax, dmin, dmax := math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
	for i, n := range c.Nodes {
		rss := kit.RssRef(A.Pick(n.Sel), n.Coeff, c.Y)
		wa, wb := kit.AiccRef(len(n.Sel), c.N, rss), kit.BicRef(len(n.Sel), c.N, rss)
		if !kit.Close(aicc[i], wa, 1e-9) || !kit.Close(bic[i], wb, 1e-9) {
			return fmt.Errorf("node %d has AICc %v and BIC %v instead of %v and %v", i, aicc[i], bic[i], wa, wb)
		}
		amin, amax = math.Min(amin, wa), math.Max(amax, wa)
		d := math.Log10(math.Sqrt(rss / float64(c.N)))
		dmin, dmax = math.Min(dmin, d), math.Max(dmax, d)
	}
	if len(aicc) != len(c.Nodes) || len(bic) != len(c.Nodes) {
		return fmt.Errorf("%d criteria for %d nodes", len(aicc), len(c.Nodes))
	}
	// plots
	var cr *featselect.AxisRange
	if len(c.Range) == 2 {
		cr = &featselect.AxisRange{Min: c.Range[0], Max: c.Range[1]}
	}
	pp := p.PlotPath(cr)
	wlo, whi := cmin, cmax
	if cr != nil {
		wlo, whi = cr.Min, cr.Max
	}
	if !rangeIs(pp.X, lmin, lmax) {
		return fmt.Errorf("the path plot shows log lambda from %v to %v instead of %v to %v", pp.X.Min, pp.X.Max, lmin, lmax)
	}
	if !rangeIs(pp.Y, wlo, whi) {
		return fmt.Errorf("the path plot shows coefficients from %v to %v instead of %v to %v", pp.Y.Min, pp.Y.Max, wlo, whi)
	}
	pe := p.PlotEntranceTimes()
	if !rangeIs(pe.X, float64(lo), float64(hi)) || !rangeIs(pe.Y, lmin, lmax) {
		return fmt.Errorf("the entrance plot shows features %v to %v and log lambda %v to %v instead of %d to %d and %v to %v", pe.X.Min, pe.X.Max, pe.Y.Min, pe.Y.Max, lo, hi, lmin, lmax)
	}
	pq := p.PlotQualityScores()
	if !rangeIs(pq.X, lmin, lmax) || !rangeIs(pq.Y, amin, amax) {
		return fmt.Errorf("the quality plot shows log lambda %v to %v and AICc %v to %v instead of %v to %v and %v to %v", pq.X.Min, pq.X.Max, pq.Y.Min, pq.Y.Max, lmin, lmax, amin, amax)
	}
	pd := p.PlotDeviations()
	if !rangeIs(pd.X, lmin, lmax) || !rangeIs(pd.Y, dmin, dmax) {
		return fmt.Errorf("the deviation plot shows log lambda %v to %v and log RMSE %v to %v instead of %v to %v and %v to %v", pd.X.Min, pd.X.Max, pd.Y.Min, pd.Y.Max, lmin, lmax, dmin, dmax)
	}
	if len(c.Nodes) > 1 && (c.Render || c.Num%3 == 0) {
		if err := c.drawn(p, aicc); err != nil {
			return err
		}
		o.Label("drawn")
	}
	if c.Render {
		for i, q := range []*plot.Plot{pp, pe, pq, pd} {
			w, err := q.WriterTo(200, 150, "svg")
			if err != nil {
				return fmt.Errorf("plot %d can not be drawn: %v", i, err)
			}
			var b bytes.Buffer
			if _, err := w.WriteTo(&b); err != nil || b.Len() < 100 {
				return fmt.Errorf("plot %d can not be written: %v", i, err)
			}
		}
		o.Label("rendered")
	}
	// nothing above changes the path; JSON round trip
	if err := same(p, c); err != nil {
		return fmt.Errorf("the path was changed by analysing it: %w", err)
	}
	p.Aicc, p.Bic = aicc, bic
	b, err := json.Marshal(p)
	if err != nil {
		return fmt.Errorf("path to JSON: %w", err)
	}
	backs := []*featselect.LassoLarsPath{featselect.LassoLarsPathFromBytes(b)}
	if c.Render {
		dir, err := ioutil.TempDir("", "verif-c26-")
		if err == nil {
			f := filepath.Join(dir, "path.json")
			if ioutil.WriteFile(f, b, 0600) == nil {
				backs = append(backs, featselect.LassoLarsPathFromJSON(f))
			}
			os.RemoveAll(dir)
		}
	}
	for _, q := range backs {
		if err := same(q, c); err != nil {
			return fmt.Errorf("path read back from JSON: %w", err)
		}
		if !kit.SameSlice(q.Aicc, aicc) || !kit.SameSlice(q.Bic, bic) || q.Dset == nil || !q.Dset.IsEqual(p.Dset) {
			return fmt.Errorf("criteria or dataset read back from JSON differ")
		}
	}
	sp := featselect.LassoNodesSlice2SparsCoeff(p.LassoLarsNodes)
	for i, n := range c.Nodes {
		if len(sp) != len(c.Nodes) || !kit.SameInts(sp[i].Selection, n.Sel) || !kit.SameSlice(sp[i].Coeff, n.Coeff) {
			return fmt.Errorf("sparse coefficients of node %d are %v instead of %v", i, sp[i], n)
		}
	}
	if len(c.Nodes) > 1 && hi > lo {
		o.NonTrivial()
	}
	return nil
}

// capture returns what f prints.
func capture(f func()) (string, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return "", err
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		b, _ := ioutil.ReadAll(r)
		done <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	s := <-done
	r.Close()
	return s, nil
}

// the printed summary
func runPrint(c pathCase, o *kit.Obs) error {
	p := c.path()
	aicc, bic := p.GetCriteria(featselect.Aicc), p.GetCriteria(featselect.Bic)
	sa := append([]float64{}, aicc...)
	s, err := capture(func() { featselect.PrintHighscore(p, aicc, bic, c.Num) })
	if err != nil {
		return kit.ErrSkip
	}
	if !kit.SameSlice(sa, aicc) {
		return fmt.Errorf("the criteria were changed by printing them")
	}
	want := c.Num
	if len(aicc) < want {
		want = len(aicc)
	}
	var rows [][]float64
	for _, l := range strings.Split(s, "\n") {
		f := strings.Split(l, "|")
		var row []float64
		for _, v := range f {
			if x, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
				row = append(row, x)
			}
		}
		if len(row) == 5 {
			rows = append(rows, row)
		}
	}
	if len(rows) != want {
		return fmt.Errorf("%d models are printed instead of %d:\n%s", len(rows), want, s)
	}
	sort.Float64s(sa)
	for i, r := range rows {
		if r[0] != float64(i+1) {
			return fmt.Errorf("row %d has rank %v", i, r[0])
		}
		if !(math.Abs(r[3]-sa[i]) <= 1e-5*math.Abs(sa[i])+1e-12) {
			return fmt.Errorf("the model of rank %d has AICc %v instead of %v", i+1, r[3], sa[i])
		}
		found := false
		for k, n := range c.Nodes {
			if math.Abs(r[3]-aicc[k]) <= 1e-5*math.Abs(aicc[k])+1e-12 && math.Abs(r[4]-bic[k]) <= 1e-5*math.Abs(bic[k])+1e-12 &&
				int(r[2]) == len(n.Sel) && math.Abs(r[1]-n.Lamb) <= 0.006*n.Lamb {
				found = true
			}
		}
		if !found {
			return fmt.Errorf("printed row %v is not a node of the path", r)
		}
	}
	if want > 1 {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C26",
		Rule:        "A case is a path of 1-10 nodes with descending lambdas and non-empty selections of up to 8 features on a random dataset, a number of features to pick and a coefficient range or none. Non-trivial: at least two nodes and two features / two printed models.",
		Assumptions: []string{"plots are observed through their axis ranges, for 1 in 3 through the lines and marks they draw, and for 1 in 20 by rendering them"},
		Subs:        []kit.Sub{kit.NewSub("analysis", 40000, 1000000, gen, run), kit.NewSub("analysis-large", 1200, 6000, kit.Large(gen), run), kit.NewSub("print-large", 1200, 6000, kit.Large(gen), runPrint), kit.NewSub("print", 40000, 500000, gen, runPrint)}})
}
