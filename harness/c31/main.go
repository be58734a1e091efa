// C31: auxiliary commands compute what they document.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/vg"
	"pgregory.net/rapid"

	"verif/kit"
)

// csvCase is a file and the position of its target.
type csvCase struct {
	kit.Prob
	Target   int    `json:"target"`
	Negative bool   `json:"negative"`
	Style    int    `json:"style"`
	Default  bool   `json:"default"`
	Dash     bool   `json:"dash"`  // --flag=value instead of -flag value
	Where    int    `json:"where"` // where the files are
	Seed     uint64 `json:"seed"`
}

func genCSV(t *rapid.T, minN, maxN, maxP int) csvCase {
	return genCSVOpt(t, kit.ProbOpts{MinN: minN, MaxN: maxN, MinP: 3, MaxP: maxP, BigN: 4 * maxN, BigP: 2*maxP - 2, Shape: 1, Bias: 1, MinNoise: 0.2, Kinds: []string{"gauss"}})
}

func genCSVOpt(t *rapid.T, opt kit.ProbOpts) csvCase {
	c := csvCase{Prob: kit.GenProb(t, opt)}
	for i := 0; i < c.N; i++ {
		c.X[i*c.P] = 1
	}
	c.Target = rapid.SampledFrom([]int{c.P, c.P, 0, rapid.IntRange(0, c.P).Draw(t, "tpos")}).Draw(t, "target")
	c.Negative = rapid.Bool().Draw(t, "negative")
	c.Style = rapid.IntRange(0, 15).Draw(t, "style")
	c.Default = rapid.Bool().Draw(t, "default")
	c.Dash = rapid.Bool().Draw(t, "dash")
	c.Where = rapid.IntRange(0, 63).Draw(t, "where")
	c.Seed = rapid.Uint64().Draw(t, "seed")
	return c
}

// write returns the name of the file on the command line, where it is, the
// names of the columns and the content.
func (c *csvCase) write(dir string) (string, string, []string, string) {
	names := kit.CLINames(c.P, c.Style)
	text := kit.CSVText(&c.Prob, names, c.Target, c.Style)
	arg, in := kit.Spell(dir, "in.csv", c.Where)
	if err := ioutil.WriteFile(in, []byte(text), 0600); err != nil {
		panic(kit.HarnessError{Err: err})
	}
	return arg, in, names, text
}

func (c *csvCase) flag(name, value string) []string {
	if c.Dash {
		return []string{"--" + name + "=" + value}
	}
	return []string{"-" + name, value}
}

func (c *csvCase) target() []string {
	t := c.Target
	if c.Negative {
		t -= c.P + 1
	}
	if c.Default && t == -1 {
		return nil
	}
	return c.flag("target", strconv.Itoa(t))
}

func (c *csvCase) spread() bool {
	if kit.StdRef(c.Y) < 1e-3 {
		return false
	}
	for _, a := range c.Cols()[1:] {
		if kit.StdRef(a) < 1e-3 {
			return false
		}
	}
	return true
}

func ftoa(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

// ---- nested lasso ----

type nestedCase struct {
	csvCase
	LMin    float64 `json:"lmin"`
	Keep    float64 `json:"keep"`
	Garbage bool    `json:"garbage"`
}

// many features, of which few are dropped in a round
func genNestedWide(t *rapid.T) nestedCase {
	c := nestedCase{csvCase: genCSVOpt(t, kit.ProbOpts{MinN: 120, MaxN: 200, MinP: 10, MaxP: 36, Shape: 1, Bias: 1, MinNoise: 0.2, Kinds: []string{"gauss"}})}
	c.Default = rapid.IntRange(0, 3).Draw(t, "rarely default") == 0
	c.LMin = rapid.SampledFrom([]float64{0.05, 0.1, 0.3}).Draw(t, "lmin")
	c.Keep = rapid.SampledFrom([]float64{0.6, 0.9, 0.95, 0.97, 0.98, 0.99}).Draw(t, "keep")
	c.Garbage = rapid.Bool().Draw(t, "garbage")
	return c
}

func genNested(t *rapid.T) nestedCase {
	c := nestedCase{csvCase: genCSV(t, 10, 30, 7)}
	c.LMin = rapid.SampledFrom([]float64{0.02, 0.1, 0.5}).Draw(t, "lmin")
	c.Keep = rapid.SampledFrom([]float64{0.3, 0.5, 0.7, 0.9}).Draw(t, "keep")
	c.Garbage = rapid.Bool().Draw(t, "garbage")
	return c
}

func runNested(c nestedCase, o *kit.Obs) error {
	if !c.spread() {
		return kit.ErrSkip
	}
	keep, lmin := c.Keep, c.LMin
	if c.Default {
		keep = 0.8
		if c.Style&3 == 0 {
			lmin = 1e-10
		}
	}
	A := c.Cols()
	lmax := 0.0
	for m := 1; c.P <= 12 && m < 1<<uint(c.P-1); m++ { // any subset of features may survive
		sub := kit.Cols{A[0]}
		for j := 1; j < c.P; j++ {
			if m>>uint(j-1)&1 == 1 {
				sub = append(sub, A[j])
			}
		}
		B, z, _ := kit.NormRef(sub, c.Y)
		for j := range B {
			lmax = math.Max(lmax, math.Abs(kit.Dot(B[j], z)))
		}
		if _, gap, smin, ok := kit.RefPath(B, z, lmin, math.Max(2e-3, lmin-1e-3)); !ok || gap < 1e-4 || smin < 0.2 {
			return kit.ErrSkip
		}
	}
	if c.P > 12 {
		B, z, _ := kit.NormRef(A, c.Y)
		for j := range B {
			lmax = math.Max(lmax, math.Abs(kit.Dot(B[j], z)))
		}
		if sv := kit.SingularValues(B); !(sv[len(sv)-2] > 0.2) {
			return kit.ErrSkip
		}
	}
	if lmin > 0.9*lmax {
		return kit.ErrSkip
	}
	dir, done, err := kit.Scratch()
	if err != nil {
		return kit.ErrSkip
	}
	defer done()
	arg, in, _, text := c.write(dir)
	args := append(c.flag("csvfile", arg), c.target()...)
	out := filepath.Join(dir, "nesteLasso.json")
	if !c.Default {
		arg, out = kit.Spell(dir, "o.json", c.Where/8)
		args = append(args, c.flag("out", arg)...)
		args = append(args, c.flag("keep", ftoa(keep))...)
	}
	if lmin != 1e-10 {
		args = append(args, c.flag("lambMin", ftoa(lmin))...)
	}
	if c.Garbage {
		ioutil.WriteFile(out, bytes.Repeat([]byte("{garbage"), 20000), 0600)
	}
	said, err := kit.RunBin(dir, "nestedlasso", args...)
	if err != nil {
		return err
	}
	if b, err := ioutil.ReadFile(in); err != nil || string(b) != text {
		return fmt.Errorf("the CSV file was changed")
	}
	b, err := ioutil.ReadFile(out)
	if err != nil {
		return fmt.Errorf("no output: %v; the command wrote %.500q", err, said)
	}
	var got featselect.NestedLassoLars
	if err := json.Unmarshal(b, &got); err != nil {
		return fmt.Errorf("the output is not JSON: %v", err)
	}
	// the same through the library, from the generated values
	names := kit.CLINames(c.P, c.Style)
	ds := &featselect.Dataset{X: c.Dense(), Y: c.Prob.Target(), Names: names, TargetCol: c.Target}
	if got.Dset == nil || !got.Dset.IsEqual(ds) || !c.SameX(got.Dset.X) || !kit.SameSlice(got.Dset.Y, c.Y) || fmt.Sprintf("%q", got.Dset.Names) != fmt.Sprintf("%q", names) || got.Dset.TargetCol != c.Target {
		return fmt.Errorf("the dataset of the output is not that of the file")
	}
	want := featselect.NestedLasso(ds, lmin, keep, &featselect.MorsePenroseCD{})
	if len(got.Paths) != len(want.Paths) {
		return fmt.Errorf("%d rounds instead of %d", len(got.Paths), len(want.Paths))
	}
	nodes := 0
	for k := range want.Paths {
		p, q := got.Paths[k], want.Paths[k]
		if len(p.Nodes) != len(q.Nodes) {
			return fmt.Errorf("round %d has %d nodes instead of %d", k, len(p.Nodes), len(q.Nodes))
		}
		if kit.Deep(p) != kit.Deep(q) {
			for m := range q.Nodes {
				u, v := p.Nodes[m], q.Nodes[m]
				if !kit.SameInts(u.Selection, v.Selection) || !kit.Close(u.Lamb, v.Lamb, 1e-9) {
					return fmt.Errorf("round %d node %d: %v at %v instead of %v at %v", k, m, u.Selection, u.Lamb, v.Selection, v.Lamb)
				}
				for i := range v.Coeff {
					if !kit.Close(u.Coeff[i], v.Coeff[i], 1e-8) {
						return fmt.Errorf("round %d node %d: coefficients %v instead of %v", k, m, u.Coeff, v.Coeff)
					}
				}
				if !kit.Close(p.Aicc[m], q.Aicc[m], 1e-8) || !kit.Close(p.Bic[m], q.Bic[m], 1e-8) {
					return fmt.Errorf("round %d node %d: criteria %v, %v instead of %v, %v", k, m, p.Aicc[m], p.Bic[m], q.Aicc[m], q.Bic[m])
				}
			}
		}
		nodes += len(p.Nodes)
		for m, nd := range p.Nodes {
			if nd.Lamb < lmin*(1-1e-9) {
				return fmt.Errorf("round %d node %d is at %v, below the smallest lambda %v", k, m, nd.Lamb, lmin)
			}
		}
	}
	// the number of rounds follows from keep
	if r := rounds(c.P, keep); len(got.Paths) > r {
		return fmt.Errorf("%d rounds, keeping %v of %d features allows %d", len(got.Paths), keep, c.P, r)
	}
	if len(got.Paths) > 1 || nodes > 2 {
		o.NonTrivial()
	}
	if c.Default {
		o.Label("defaults")
	}
	return nil
}

func rounds(p int, keep float64) int {
	for r := 1; ; r++ {
		p = int(keep * float64(p))
		if p <= 2 {
			return r
		}
	}
}

// ---- memory ----

type memCase struct {
	Mem  int  `json:"mem"`
	Feat int  `json:"feat"`
	Dash bool `json:"dash"`
	Def  bool `json:"def"`
}

func genMem(t *rapid.T) memCase {
	return memCase{rapid.IntRange(0, 4000).Draw(t, "mem"), rapid.SampledFrom([]int{1, 2, 3, 10, 50, 1000, rapid.IntRange(1, 5000).Draw(t, "n")}).Draw(t, "feat"), rapid.Bool().Draw(t, "dash"), rapid.Bool().Draw(t, "def")}
}

var memLine = regexp.MustCompile(`^Buffer size for (\d+) GB: (\d+)\n$`)

func runMem(c memCase, o *kit.Obs) error {
	dir, done, err := kit.Scratch()
	if err != nil {
		return kit.ErrSkip
	}
	defer done()
	q := csvCase{Dash: c.Dash}
	args := q.flag("mem", strconv.Itoa(c.Mem))
	feat := c.Feat
	if c.Def {
		feat = 1
	} else {
		args = append(args, q.flag("nfeat", strconv.Itoa(feat))...)
	}
	said, err := kit.RunBin(dir, "mem", args...)
	if err != nil {
		return err
	}
	m := memLine.FindStringSubmatch(said)
	if m == nil {
		return fmt.Errorf("the command wrote %q", said)
	}
	model := make([]bool, feat)
	for i := range model {
		model[i] = true
	}
	size := featselect.NewNode(0, model).EstimateMemory()
	if size < 9*feat { // a flag and a coefficient for each feature
		return fmt.Errorf("a node with %d features is estimated to need %d bytes", feat, size)
	}
	n, err := strconv.Atoi(m[2])
	if err != nil || m[1] != strconv.Itoa(c.Mem) {
		return fmt.Errorf("the command wrote %q for %d GB", said, c.Mem)
	}
	total := c.Mem * 1000000000
	if n*size > total || (n+1)*size <= total {
		return fmt.Errorf("%d nodes of %d bytes are said to fit in %d GB", n, size, c.Mem)
	}
	if n > 0 {
		o.NonTrivial()
	}
	return nil
}

// ---- kappa ----

type kappaCase struct {
	csvCase
	LMin    float64 `json:"lmin"`
	LMax    float64 `json:"lmax"`
	Num     int     `json:"num"`
	Samples int     `json:"samples"`
	Tol     float64 `json:"tol"`
}

func genKappa(t *rapid.T) kappaCase {
	c := kappaCase{csvCase: genCSV(t, 14, 24, 4)}
	c.LMin = math.Pow(10, rapid.Float64Range(-4, -0.4).Draw(t, "lmin"))
	c.LMax = math.Pow(10, rapid.Float64Range(-0.3, 1).Draw(t, "lmax"))
	c.Num = rapid.SampledFrom([]int{1, 2, 5, 16, 17, 33}).Draw(t, "num")
	c.Samples = rapid.SampledFrom([]int{1, 1, 2, 60}).Draw(t, "samples")
	c.Tol = rapid.SampledFrom([]float64{1e-3, 1e-5, 1e-7}).Draw(t, "tol")
	return c
}

var (
	kappaLine   = regexp.MustCompile(`(?m)^Lambda: (\S+) kappa: (\S+)$`)
	summaryLine = regexp.MustCompile(`(?m)^ *Lambda: (\S+) Kappa: (\S+)$`)
)

func runKappa(c kappaCase, o *kit.Obs) error {
	if !c.spread() {
		return kit.ErrSkip
	}
	for _, a := range append(c.Cols()[1:], c.Y) {
		seen := map[float64]int{}
		for _, v := range a {
			if seen[v]++; seen[v] > 3 {
				return kit.ErrSkip // a half may be constant
			}
		}
	}
	dir, done, err := kit.Scratch()
	if err != nil {
		return kit.ErrSkip
	}
	defer done()
	in, _, _, _ := c.write(dir)
	lmin, lmax, num, samples, tol := c.LMin, c.LMax, c.Num, c.Samples, c.Tol
	args := append(c.flag("csvfile", in), c.target()...)
	if c.Default {
		lmin, lmax, num, samples, tol = 1e-5, 1, 20, 100, 1e-4
		if c.Style&1 == 0 {
			samples = c.Samples
			args = append(args, c.flag("numSamp", strconv.Itoa(samples))...)
		}
	} else {
		for _, f := range [][2]string{{"lambMin", ftoa(lmin)}, {"lambMax", ftoa(lmax)}, {"numLamb", strconv.Itoa(num)}, {"numSamp", strconv.Itoa(samples)}, {"tol", ftoa(tol)}} {
			args = append(args, c.flag(f[0], f[1])...)
		}
	}
	said, err := kit.RunBin(dir, "cohenlasso", args...)
	if err != nil {
		return err
	}
	want := map[string]int{}
	lambs := make([]float64, num)
	for i := range lambs {
		lambs[i] = lmin
		if num > 1 {
			lambs[i] = math.Exp(math.Log(lmin) + (math.Log(lmax)-math.Log(lmin))*float64(i)/float64(num-1))
		}
		want[fmt.Sprintf("%.3e", lambs[i])]++
	}
	kappa := map[string]float64{}
	for _, re := range []*regexp.Regexp{kappaLine, summaryLine} {
		got := map[string]int{}
		last := math.Inf(-1)
		for _, m := range re.FindAllStringSubmatch(said, -1) {
			got[m[1]]++
			k, err := strconv.ParseFloat(m[2], 64)
			if err != nil || math.IsNaN(k) || k > 1 || k < -1 {
				return fmt.Errorf("kappa %q for lambda %s", m[2], m[1])
			}
			if re == kappaLine {
				kappa[m[1]] = k
			} else {
				if kappa[m[1]] != k && want[m[1]] == 1 {
					return fmt.Errorf("lambda %s has kappa %v in the summary and %v before", m[1], k, kappa[m[1]])
				}
				if k < last {
					return fmt.Errorf("the summary is not sorted: %v after %v", k, last)
				}
				last = k
			}
		}
		if !sameCount(got, want) {
			return fmt.Errorf("the lambdas evaluated are %v instead of %v", got, want)
		}
	}
	nd := featselect.NewNormalizedData(c.Dense(), c.Prob.Target())
	possible := singles(c.P)
	for i, l := range lambs {
		key := fmt.Sprintf("%.3e", l)
		if want[key] != 1 {
			continue
		}
		k := kappa[key]
		if l > 1.2 && k != 1 {
			// no correlation exceeds one: nothing is selected in any half
			return fmt.Errorf("kappa %v at lambda %v, where no feature can be selected", k, l)
		}
		if samples <= 2 {
			ok := false
			for _, a := range possible {
				if samples == 1 {
					ok = ok || math.Abs(k-a) < 6e-4
				} else {
					for _, b := range possible {
						ok = ok || math.Abs(k-(a+b)/2) < 6e-4
					}
				}
			}
			if !ok {
				return fmt.Errorf("kappa %v at lambda %v cannot be the mean of %d samples with %d features", k, l, samples, c.P)
			}
		} else if i%5 == 0 {
			// the same estimate from the library
			var v []float64
			for r := 0; r < 600; r++ {
				t := featselect.NewPureLassoCohen()
				t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, l, &featselect.Empirical{}, 100000, tol, &featselect.PureLasso{}
				v = append(v, featselect.GetCohensKappa(1, t))
			}
			// rare disagreements may be missing from either sample: five more
			// of the largest size are allowed for
			mu, sd := kit.MeanRef(v), math.Sqrt(math.Pow(kit.StdRef(v), 2)+5./600*2)
			if d := math.Abs(k - mu); d > 7*sd*math.Sqrt(1/600.+1/float64(samples))+1e-3 {
				return fmt.Errorf("kappa at lambda %v is %v for %d samples, the library gives %v +- %v", l, k, samples, mu, sd)
			}
			o.Label("estimate compared")
		}
	}
	if num > 1 {
		o.NonTrivial()
	}
	if num > 16 {
		o.Label("more lambdas than workers")
	}
	return nil
}

func sameCount(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// singles lists the values kappa can have for two subsets of p features.
func singles(p int) []float64 {
	var out []float64
	for a := 0; a < 1<<uint(p); a++ {
		for b := 0; b < 1<<uint(p); b++ {
			t := float64(p)
			agree, na, nb := 0.0, 0.0, 0.0
			for i := 0; i < p; i++ {
				x, y := a>>uint(i)&1, b>>uint(i)&1
				if x == y {
					agree++
				}
				na += float64(x)
				nb += float64(y)
			}
			if agree == t {
				out = append(out, 1)
				continue
			}
			pe := (na*nb + (t-na)*(t-nb)) / (t * t)
			out = append(out, (agree/t-pe)/(1-pe))
		}
	}
	return out
}

// ---- figures ----

type plotCase struct {
	csvCase
	Ext   string    `json:"ext"`
	Range []float64 `json:"range"` // empty: none given
	Names string    `json:"prefix"`
	Lambs int       `json:"nodes"`
}

func genPlot(t *rapid.T) plotCase {
	c := plotCase{csvCase: genCSV(t, 8, 16, 5)}
	c.Ext = rapid.SampledFrom([]string{"svg", "svg", "svg", "png", "eps"}).Draw(t, "ext")
	switch rapid.IntRange(0, 3).Draw(t, "range") {
	case 0, 1:
		a := rapid.Float64Range(-3, 3).Draw(t, "min")
		c.Range = []float64{a, a + rapid.Float64Range(0.5, 4).Draw(t, "len")}
	case 2:
		c.Range = []float64{1, 1}
	}
	c.Names = rapid.SampledFrom([]string{"", "p", "sub/fig"}).Draw(t, "prefix")
	c.Lambs = kit.Upto(t, 2, 6, 60, "nodes")
	return c
}

func runPlot(c plotCase, o *kit.Obs) error {
	dir, done, err := kit.Scratch()
	if err != nil {
		return kit.ErrSkip
	}
	defer done()
	// a stored path: any coefficients do
	r := kit.NewRng(c.Seed)
	path := featselect.LassoLarsPath{Dset: &featselect.Dataset{X: c.Dense(), Y: c.Prob.Target(), Names: kit.CLINames(c.P, c.Style), TargetCol: c.Target}}
	l := 10.0
	for k := 0; k < c.Lambs; k++ {
		l *= 0.2 + 0.6*r.F()
		sel := []int{0}
		for j := 1; j < c.P; j++ {
			if r.I(2) == 0 {
				sel = append(sel, j)
			}
		}
		if k == c.Lambs-1 && len(sel) == 1 {
			sel = append(sel, c.P-1)
		}
		co := make([]float64, len(sel))
		for i := range co {
			co[i] = 2 * r.N()
		}
		path.LassoLarsNodes = append(path.LassoLarsNodes, featselect.NewLassoLarsNode(co, l, sel))
	}
	if c.N < c.P+3 {
		return kit.ErrSkip
	}
	path.Aicc, path.Bic = path.GetCriteria(featselect.Aicc), path.GetCriteria(featselect.Bic)
	js, err := json.Marshal(&path)
	if err != nil {
		return kit.ErrSkip
	}
	arg, in := kit.Spell(dir, "path.json", c.Where)
	if err := ioutil.WriteFile(in, js, 0600); err != nil {
		return kit.ErrSkip
	}
	args := c.flag("json", arg)
	prefix := filepath.Join(dir, "lassofig")
	if c.Names != "" {
		arg, prefix = kit.Spell(dir, strings.ReplaceAll(c.Names, "/", "_"), c.Where/8)
		args = append(args, c.flag("prefix", arg)...)
	}
	ext := c.Ext
	if c.Default && ext == "png" {
	} else {
		args = append(args, c.flag("ext", ext)...)
	}
	var rng *featselect.AxisRange
	if len(c.Range) == 2 {
		args = append(args, c.flag("coeffmin", ftoa(c.Range[0]))...)
		args = append(args, c.flag("coeffmax", ftoa(c.Range[1]))...)
		if c.Range[0] != c.Range[1] {
			rng = &featselect.AxisRange{Min: c.Range[0], Max: c.Range[1]}
			o.Label("range given")
		} else {
			o.Label("empty range")
		}
	}
	said, err := kit.RunBin(dir, "plotlasso", args...)
	if err != nil {
		return err
	}
	if b, err := ioutil.ReadFile(in); err != nil || !bytes.Equal(b, js) {
		return fmt.Errorf("the path file was changed")
	}
	for _, f := range []struct {
		name string
		plt  func() *plot.Plot
	}{{"entrance", path.PlotEntranceTimes}, {"quality", path.PlotQualityScores}, {"dev", path.PlotDeviations}, {"path", func() *plot.Plot { return path.PlotPath(rng) }}} {
		name := prefix + "_" + f.name + "." + ext
		got, err := ioutil.ReadFile(name)
		if err != nil {
			return fmt.Errorf("figure %s: %v; the command wrote %.500q", f.name, err, said)
		}
		ref := filepath.Join(dir, "ref."+ext)
		if err := f.plt().Save(4*vg.Inch, 4*vg.Inch, ref); err != nil {
			return kit.ErrSkip
		}
		want, err := ioutil.ReadFile(ref)
		if err != nil {
			return kit.ErrSkip
		}
		if !bytes.Equal(clean(got, name), clean(want, ref)) {
			return fmt.Errorf("figure %s (range %v) does not show the path that is stored", f.name, c.Range)
		}
	}
	o.NonTrivial()
	o.Label("%s", ext)
	return nil
}

// clean removes what depends on the time of writing.
func clean(b []byte, name string) []byte {
	var out [][]byte
	for _, l := range bytes.Split(b, []byte("\n")) {
		if bytes.Contains(l, []byte("CreationDate")) || bytes.Contains(l, []byte("%%Title")) {
			continue
		}
		out = append(out, l)
	}
	return bytes.Join(out, []byte("\n"))
}

func main() {
	kit.Main(&kit.Check{ID: "C31",
		Rule:        "nested: CSV files (8-30 rows, ones and 2-6 features in general position), output compared with the library call on the generated values; non-trivial: two rounds or three nodes. mem: memory sizes and feature numbers; non-trivial: at least one node fits. kappa: CSV files and lambda ranges, list of lambdas, possible kappa values and (60+ samples) a library estimate; non-trivial: two lambdas. plot: stored paths, figures compared with those drawn from the generated path.",
		Assumptions: []string{"the library functions themselves are decided by C15, C19 and C26", "kappa estimates are compared at 7 standard deviations"},
		Subs: []kit.Sub{kit.NewSub("nested", 700, 10000, genNested, runNested), kit.NewSub("nested-wide", 60, 1000, genNestedWide, runNested), kit.NewSub("mem", 300, 3000, genMem, runMem),
			kit.NewSub("kappa", 300, 5000, genKappa, runKappa), kit.NewSub("nested-large", 40, 800, kit.Large(genNested), runNested), kit.NewSub("kappa-large", 25, 400, kit.Large(genKappa), runKappa), kit.NewSub("plot-large", 40, 800, kit.Large(genPlot), runPlot), kit.NewSub("plot", 400, 6000, genPlot, runPlot)}})
}
