// C28: the lasso command writes exact paths and criteria.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/kit"
)

type cliCase struct {
	kit.Prob
	Target   int     `json:"target"`
	Negative bool    `json:"negative"`
	Default  bool    `json:"default"` // leave out options that have their default value
	Style    int     `json:"style"`
	Garbage  bool    `json:"garbage"`
	Type     string  `json:"type"`
	Cov      string  `json:"cov"`
	LMin     float64 `json:"lmin"` // lars: fraction of the largest lambda, 0: default
	CMin     float64 `json:"cmin"` // cd
	CMax     float64 `json:"cmax"`
	Num      int     `json:"num"`
	Tol      float64 `json:"tol"`
	NoBias   bool    `json:"nobias"` // no column of ones
	Where    int     `json:"where"`  // where the files are
	Config   int     `json:"config"` // 2, 3: there is a configuration file
}

// first is the number of the first real feature: 1 with a column of ones.
func (c cliCase) first() int {
	if c.NoBias {
		return 0
	}
	return 1
}

func (c cliCase) Smaller() []cliCase {
	var out []cliCase
	for _, q := range c.SmallerProbs(c.P + 3) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 3 {
		for j := c.first(); j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			if d.Target > d.P {
				d.Target = d.P
			}
			out = append(out, d)
		}
	}
	return out
}

func genKind(typ string) func(t *rapid.T) cliCase {
	return func(t *rapid.T) cliCase {
		nobias := rapid.IntRange(0, 3).Draw(t, "nobias") == 0
		opt := kit.ProbOpts{MinN: 8, MaxN: 25, MinP: 3, MaxP: 7, BigN: 150, BigP: 16, Shape: 1, Bias: 1, MinNoise: 0.1, MaxScale: 1, Masked: true,
			Kinds: []string{"gauss"}}
		if nobias {
			opt.Bias = -1
		}
		wide := rapid.IntRange(0, 4).Draw(t, "wide") == 0
		if wide {
			opt.MinN, opt.MaxN, opt.MinP, opt.MaxP, opt.BigN, opt.BigP, opt.Shape = 6, 10, 6, 14, 25, 40, -1
		}
		c := cliCase{Prob: kit.GenProb(t, opt), Type: typ, NoBias: nobias}
		if !nobias {
			for i := 0; i < c.N; i++ {
				c.X[i*c.P] = 1
			}
		}
		c.Target = rapid.SampledFrom([]int{c.P, c.P, 0, rapid.IntRange(0, c.P).Draw(t, "tpos")}).Draw(t, "target")
		c.Negative = rapid.Bool().Draw(t, "negative")
		c.Default = rapid.Bool().Draw(t, "default")
		c.Style = rapid.IntRange(0, 15).Draw(t, "style")
		c.Garbage = rapid.Bool().Draw(t, "garbage")
		c.Where = rapid.IntRange(0, 63).Draw(t, "where")
		c.Config = rapid.IntRange(0, 3).Draw(t, "config")
		c.LMin = rapid.SampledFrom([]float64{0, 0, 0.01, 0.1, 0.4}).Draw(t, "lmin")
		c.Cov = rapid.SampledFrom([]string{"empirical", "empirical", "identity", "identity", "threshold"}).Draw(t, "cov")
		c.CMin = math.Pow(10, rapid.Float64Range(-6, -0.5).Draw(t, "cmin"))
		c.CMax = math.Pow(10, rapid.Float64Range(-0.3, 0.7).Draw(t, "cmax"))
		if rapid.IntRange(0, 7).Draw(t, "equal lambdas") == 0 {
			c.CMin = math.Pow(10, rapid.Float64Range(-3, -0.3).Draw(t, "lambda"))
			c.CMax = c.CMin
		}
		c.Num = rapid.SampledFrom([]int{1, 2, 5, 11, 50, 90, 150}).Draw(t, "num")
		c.Tol = rapid.SampledFrom([]float64{1e-4, 1e-4, 1e-8, 1e-2}).Draw(t, "tol")
		if wide {
			// the models stay away from an exact fit
			c.LMin = rapid.SampledFrom([]float64{0.1, 0.2, 0.4}).Draw(t, "lmin wide")
			c.CMin = math.Max(c.CMin, 0.03)
		}
		return c
	}
}

type result struct {
	Dset struct {
		X, Y      []float64
		TargetCol int
		Names     []string
		Nr, Nc    int
	}
	LassoLarsNodes []struct {
		Coeff     []float64
		Lamb      float64
		Selection []int
	}
	Aicc, Bic []float64
}

func (c cliCase) call(extra ...string) (*result, error) {
	dir, done, err := kit.Scratch()
	if err != nil {
		return nil, kit.ErrSkip
	}
	defer done()
	names := kit.CLINames(c.P, c.Style)
	text := kit.CSVText(&c.Prob, names, c.Target, c.Style)
	arg, in := kit.Spell(dir, "in.csv", c.Where)
	if err := ioutil.WriteFile(in, []byte(text), 0600); err != nil {
		return nil, kit.ErrSkip
	}
	args := []string{"lasso", "--csv", arg}
	tgt := c.Target
	if c.Negative {
		tgt -= c.P + 1
	}
	if !(c.Default && tgt == -1) {
		args = append(args, "--target="+strconv.Itoa(tgt))
	}
	out := filepath.Join(dir, "lasso.json")
	if !c.Default {
		arg, out = kit.Spell(dir, "other.json", c.Where/8)
		args = append(args, "--out", arg)
	}
	if c.Garbage {
		ioutil.WriteFile(out, bytes.Repeat([]byte("{garbage"), 20000), 0600)
	}
	args = append(args, extra...)
	args = append(args, kit.Config(dir, c.Config)...)
	said, err := kit.RunBin(dir, "goselect", args...)
	if err != nil {
		return nil, err
	}
	if b, err := ioutil.ReadFile(in); err != nil || string(b) != text {
		return nil, fmt.Errorf("the CSV file was changed")
	}
	b, err := ioutil.ReadFile(out)
	if err != nil {
		return nil, fmt.Errorf("no output file: %v; the command wrote %q", err, said)
	}
	var res result
	if err := json.Unmarshal(b, &res); err != nil {
		return nil, fmt.Errorf("output is not JSON: %v", err)
	}
	d := &res.Dset
	if d.Nr != c.N || d.Nc != c.P || d.TargetCol != c.Target || !kit.SameSlice(d.X, c.X) || !kit.SameSlice(d.Y, c.Y) || fmt.Sprintf("%q", d.Names) != fmt.Sprintf("%q", names) {
		return nil, fmt.Errorf("the dataset in the output is not that of the file: %dx%d, target column %d, names %q", d.Nr, d.Nc, d.TargetCol, d.Names)
	}
	return &res, res.summary(said)
}

// summary checks the printed table: the (at most twenty) models of lowest AICc.
func (res *result) summary(said string) error {
	var rows [][]float64
	for _, l := range strings.Split(said, "\n") {
		var row []float64
		for _, v := range strings.Split(l, "|") {
			if x, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
				row = append(row, x)
			}
		}
		if len(row) == 5 {
			rows = append(rows, row)
		}
	}
	want := len(res.LassoLarsNodes)
	if want > 20 {
		want = 20
	}
	if len(rows) != want {
		return fmt.Errorf("%d of %d models are printed", len(rows), len(res.LassoLarsNodes))
	}
	sa := append([]float64{}, res.Aicc...)
	sort.Float64s(sa)
	for i, r := range rows {
		found := false
		for k, n := range res.LassoLarsNodes {
			if math.Abs(r[3]-res.Aicc[k]) <= 1e-5*math.Abs(res.Aicc[k])+1e-12 && math.Abs(r[4]-res.Bic[k]) <= 1e-5*math.Abs(res.Bic[k])+1e-12 &&
				int(r[2]) == len(n.Selection) && math.Abs(r[1]-n.Lamb) <= 0.006*n.Lamb {
				found = true
			}
		}
		if r[0] != float64(i+1) || !found || i < len(sa) && math.Abs(r[3]-sa[i]) > 1e-5*math.Abs(sa[i])+1e-12 {
			return fmt.Errorf("row %d of the printed table is %v, the lowest AICc values are %v", i+1, r, sa[:want])
		}
	}
	return nil
}

// common checks of a node; returns the coefficients of the normalised problem
func (c cliCase) node(res *result, k int, A kit.Cols) ([]float64, error) {
	n := res.LassoLarsNodes[k]
	full, err := kit.FullVec(c.P, n.Selection, n.Coeff)
	if err != nil {
		return nil, fmt.Errorf("node %d: %w", k, err)
	}
	if !c.NoBias && (len(n.Selection) == 0 || n.Selection[0] != 0) {
		return nil, fmt.Errorf("node %d: selection %v does not start with the bias", k, n.Selection)
	}
	for i := 1; i < len(n.Selection); i++ {
		if n.Selection[i] <= n.Selection[i-1] {
			return nil, fmt.Errorf("node %d: selection %v is not ascending", k, n.Selection)
		}
	}
	sdY, icpt := kit.StdRef(c.Y), kit.MeanRef(c.Y)
	b := make([]float64, c.P)
	size := math.Abs(icpt)
	for j := c.first(); j < c.P; j++ {
		b[j] = full[j] * kit.StdRef(A[j]) / sdY
		icpt -= full[j] * kit.MeanRef(A[j])
		size += math.Abs(full[j] * kit.MeanRef(A[j]))
	}
	if !c.NoBias && !kit.CloseScale(full[0], icpt, 1e-9, 1+size) {
		return nil, fmt.Errorf("node %d: the bias is %v instead of %v", k, full[0], icpt)
	}
	rss := kit.RssRef(A, full, c.Y)
	if len(res.Aicc) != len(res.LassoLarsNodes) || len(res.Bic) != len(res.LassoLarsNodes) {
		return nil, fmt.Errorf("%d AICc and %d BIC values for %d nodes", len(res.Aicc), len(res.Bic), len(res.LassoLarsNodes))
	}
	wa, wb := kit.AiccRef(len(n.Selection), c.N, rss), kit.BicRef(len(n.Selection), c.N, rss)
	if !kit.Close(res.Aicc[k], wa, 1e-7) || !kit.Close(res.Bic[k], wb, 1e-7) {
		return nil, fmt.Errorf("node %d: AICc %v, BIC %v instead of %v, %v", k, res.Aicc[k], res.Bic[k], wa, wb)
	}
	return b, nil
}

func ftoa(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

func runLars(c cliCase, o *kit.Obs) error {
	A := c.Cols()
	B, z, _ := kit.NormRef(A, c.Y)
	lmax := 0.0
	for j := range B {
		lmax = math.Max(lmax, math.Abs(kit.Dot(B[j], z)))
	}
	lmin := 1e-10
	var extra []string
	if !c.Default {
		extra = append(extra, "--type", "lars")
	}
	if c.LMin > 0 {
		lmin = c.LMin * lmax
		extra = append(extra, "--lmin", ftoa(lmin))
	}
	floor := math.Max(lmin, 2e-3)
	ref, gap, smin, ok := kit.RefPath(B, z, lmin, floor-1e-3)
	if !ok || gap < 1e-4 || smin < 0.2 || len(ref) == 0 || lmax < 1e-2 {
		return kit.ErrSkip
	}
	res, err := c.call(extra...)
	if err != nil {
		return err
	}
	for k, q := range ref {
		if q.Lamb < floor+1e-4 {
			break
		}
		if k >= len(res.LassoLarsNodes) {
			return fmt.Errorf("the path has only %d nodes, the next one is at lambda %v", len(res.LassoLarsNodes), q.Lamb)
		}
		n := res.LassoLarsNodes[k]
		if !kit.Close(n.Lamb, q.Lamb, 1e-7) {
			return fmt.Errorf("node %d is at lambda %v instead of %v", k, n.Lamb, q.Lamb)
		}
		b, err := c.node(res, k, A)
		if err != nil {
			return err
		}
		if f := c.first(); len(n.Selection) != len(q.Sel)+f || !kit.SameInts(n.Selection[f:], q.Sel) {
			return fmt.Errorf("node %d selects %v instead of %v and the bias, if there is one", k, n.Selection, q.Sel)
		}
		for j := range b {
			if !kit.Close(b[j], q.B[j], 1e-6) {
				return fmt.Errorf("node %d (lambda %v) has normalised coefficients %v instead of %v", k, n.Lamb, b, q.B)
			}
		}
	}
	for k, n := range res.LassoLarsNodes {
		if n.Lamb < lmin*(1-1e-9) {
			return fmt.Errorf("node %d at lambda %v is below the smallest lambda %v", k, n.Lamb, lmin)
		}
		if k >= len(ref) && n.Lamb > floor+1e-4 {
			return fmt.Errorf("node %d at lambda %v is not a knot of the path", k, n.Lamb)
		}
	}
	if len(res.LassoLarsNodes) > 1 {
		o.NonTrivial()
	}
	if c.LMin > 0 {
		o.Label("smallest lambda given")
	}
	return nil
}

func runCd(c cliCase, o *kit.Obs) error {
	A := c.Cols()
	if kit.StdRef(c.Y) < 1e-6 {
		return kit.ErrSkip // constant target
	}
	for _, a := range A[c.first():] {
		if kit.StdRef(a) < 1e-9 {
			return kit.ErrSkip
		}
	}
	B, z, _ := kit.NormRef(A, c.Y)
	n := float64(c.N)
	xty := make([]float64, c.P)
	emp := make([][]float64, c.P)
	lmax := 0.0
	for j := range B {
		xty[j] = kit.Dot(B[j], z) / n
		lmax = math.Max(lmax, math.Abs(xty[j]))
		emp[j] = make([]float64, c.P)
		for i := range B {
			emp[j][i] = kit.Dot(B[j], B[i]) / n
		}
	}
	sv := kit.SingularValues(B[c.first():])
	if sv[len(sv)-1]*sv[len(sv)-1]/n < 0.05 {
		return kit.ErrSkip
	}
	// candidate covariance estimates
	var covs [][][]float64
	thr := func(t float64) [][]float64 {
		s := make([][]float64, c.P)
		for i := range s {
			s[i] = append([]float64{}, emp[i]...)
			for j := range s[i] {
				if math.Abs(s[i][j]) < t {
					s[i][j] = 0
				}
			}
		}
		return s
	}
	switch c.Cov {
	case "empirical":
		covs = append(covs, emp)
	case "identity":
		s := make([][]float64, c.P)
		for i := range s {
			s[i] = make([]float64, c.P)
			s[i][i] = 1
		}
		covs = append(covs, s)
	default:
		if sv[len(sv)-1]*sv[len(sv)-1]/n < 0.3 {
			return kit.ErrSkip // thresholding may make the estimate indefinite
		}
		for k := 0; k < 9; k++ {
			covs = append(covs, thr(math.Exp(-10+float64(k))))
		}
		o.Label("threshold")
	}
	cmin, cmax, num, tol := c.CMin, c.CMax, c.Num, c.Tol
	extra := []string{"--type", "cd"}
	if c.Default && c.Style&1 == 0 {
		cmax, num, tol = 1, 50, 1e-4 // the documented defaults
		extra = append(extra, "--lmin", ftoa(cmin))
		if c.Cov != "empirical" {
			extra = append(extra, "--cov", c.Cov)
		}
	} else {
		extra = append(extra, "--lmin", ftoa(cmin), "--lmax", ftoa(cmax), "--num", strconv.Itoa(num), "--tol", ftoa(tol), "--cov", c.Cov)
	}
	if cmax < cmin {
		return kit.ErrSkip
	}
	res, err := c.call(extra...)
	if err != nil {
		return err
	}
	m := len(res.LassoLarsNodes)
	if m == 0 || m > num {
		return fmt.Errorf("%d nodes for %d lambdas", m, num)
	}
	lamb := func(i int) float64 { // i-th largest
		if num == 1 {
			return cmin
		}
		return math.Exp(math.Log(cmax) + (math.Log(cmin)-math.Log(cmax))*float64(i)/float64(num-1))
	}
	for i := 0; i < num-m; i++ {
		if lamb(i) < lmax-1e-9 {
			return fmt.Errorf("no node at lambda %v, where features are selected", lamb(i))
		}
	}
	alive := make([]bool, len(covs))
	for i := range alive {
		alive[i] = true
	}
	some := false
	for k := 0; k < m; k++ {
		nd := res.LassoLarsNodes[k]
		l := lamb(num - m + k)
		if !(math.Abs(nd.Lamb-l) <= 1e-9*l) {
			return fmt.Errorf("node %d is at lambda %v instead of %v", k, nd.Lamb, l)
		}
		b, err := c.node(res, k, A)
		if err != nil {
			return err
		}
		if len(nd.Selection) > c.first() {
			some = true
		}
		if k == 0 && m < num && len(nd.Selection) <= c.first() {
			return fmt.Errorf("%d nodes are left out but the first one has no features", num-m)
		}
		slack := 2*float64(c.P)*tol*kit.MaxAbs(b) + 1e-8
		bad := ""
		any := false
		for q, S := range covs {
			if !alive[q] {
				continue
			}
			for j := c.first(); j < c.P; j++ {
				g := xty[j]
				for i := range b {
					g -= S[j][i] * b[i]
				}
				v := math.Abs(g) - l
				if b[j] > 1e-14 {
					v = math.Abs(g - l)
				} else if b[j] < -1e-14 {
					v = math.Abs(g + l)
				}
				if v > slack {
					alive[q] = false
					bad = fmt.Sprintf("the optimality condition of feature %d is violated by %v (coefficients %v)", j, v, b)
				}
			}
			any = any || alive[q]
		}
		if !any {
			return fmt.Errorf("node %d (lambda %v, covariance %s): %s", k, l, c.Cov, bad)
		}
	}
	if num == 1 {
		o.Label("one lambda")
	}
	if some && m > 1 {
		o.NonTrivial()
	}
	if m < num {
		o.Label("left out nodes")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C28",
		Rule:        "A case is a CSV file with 8-25 rows and 3-7 columns (in three of four files the first is a column of ones; without it there is no intercept) of different scales (blanks, CRLF, exponents, quoted names; target at any position) and the options of the command, defaults left out or not. Non-trivial: at least two nodes with features.",
		Assumptions: []string{"general position for LARS, smallest eigenvalue of the feature covariance at least 0.05 for coordinate descent (0.3 with thresholded covariance)"},
		Subs:        []kit.Sub{kit.NewSub("lars", 1200, 20000, genKind("lars"), runLars), kit.NewSub("cd", 1200, 20000, genKind("cd"), runCd), kit.NewSub("lars-large", 100, 2000, kit.Large(genKind("lars")), runLars), kit.NewSub("cd-large", 100, 2000, kit.Large(genKind("cd")), runCd)}})
}
