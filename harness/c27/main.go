// C27: search commands report the optimum of the CSV data.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"path/filepath"
	"strconv"

	"pgregory.net/rapid"

	"verif/kit"
)

type cliCase struct {
	kit.Prob
	Target   int    `json:"target"`
	Negative bool   `json:"negative"` // give the target as a negative number
	Default  bool   `json:"default"`  // leave out options that have their default value
	Style    int    `json:"style"`
	Out      string `json:"out"`
	Garbage  bool   `json:"garbage"` // the output file exists
	Where    int    `json:"where"`   // where the files are
	MaxQueue int    `json:"maxqueue"`
	Sweeps   int    `json:"sweeps"`
	Config   int    `json:"config"`
}

func (c cliCase) Smaller() []cliCase {
	var out []cliCase
	for _, q := range c.SmallerProbs(4) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 3 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			if d.Target > d.P {
				d.Target = d.P
			}
			out = append(out, d)
		}
	}
	return out
}

func gen(t *rapid.T) cliCase {
	c := cliCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 4, MaxN: 20, MinP: 3, MaxP: 6, BigN: 150, BigP: 10, MinNoise: 0.1,
		Kinds: []string{"gauss", "gauss", "int", "binary", "corr", "poly"}})}
	c.Target = rapid.SampledFrom([]int{c.P, c.P, 0, rapid.IntRange(0, c.P).Draw(t, "tpos")}).Draw(t, "target")
	c.Negative = rapid.Bool().Draw(t, "negative")
	c.Default = rapid.Bool().Draw(t, "default")
	c.Style = rapid.IntRange(0, 15).Draw(t, "style")
	c.Out = rapid.SampledFrom([]string{"", "res.json", "sub/result"}).Draw(t, "out")
	c.Garbage = rapid.Bool().Draw(t, "garbage")
	c.Where = rapid.IntRange(0, 63).Draw(t, "where")
	c.MaxQueue = rapid.SampledFrom([]int{0, 200, 100000}).Draw(t, "maxqueue")
	c.Sweeps = rapid.SampledFrom([]int{0, 1, 5, 40}).Draw(t, "sweeps")
	c.Config = rapid.IntRange(0, 3).Draw(t, "config")
	return c
}

func (c cliCase) call(sub, defOut string, extra ...string) ([]byte, error) {
	dir, done, err := kit.Scratch()
	if err != nil {
		return nil, kit.ErrSkip
	}
	defer done()
	text := kit.CSVText(&c.Prob, kit.CLINames(c.P, c.Style), c.Target, c.Style)
	arg, in := kit.Spell(dir, "in.csv", c.Where)
	if err := ioutil.WriteFile(in, []byte(text), 0600); err != nil {
		return nil, kit.ErrSkip
	}
	args := []string{sub, "--csv", arg}
	tgt := c.Target
	if c.Negative {
		tgt -= c.P + 1
	}
	if !(c.Default && tgt == -1) {
		args = append(args, "--target="+strconv.Itoa(tgt))
	}
	out := filepath.Join(dir, defOut)
	if c.Out != "" {
		out = filepath.Join(dir, c.Out)
		if filepath.Dir(out) != dir {
			if err := mkdir(filepath.Dir(out)); err != nil {
				return nil, kit.ErrSkip
			}
			args = append(args, "--out", out)
		} else {
			var arg string
			arg, out = kit.Spell(dir, c.Out, c.Where/8)
			args = append(args, "--out", arg)
		}
	}
	if c.Garbage {
		ioutil.WriteFile(out, bytes.Repeat([]byte("{garbage"), 20000), 0600)
	}
	args = append(args, extra...)
	args = append(args, kit.Config(dir, c.Config)...)
	if _, err := kit.RunBin(dir, "goselect", args...); err != nil {
		return nil, err
	}
	if b, err := ioutil.ReadFile(in); err != nil || string(b) != text {
		return nil, fmt.Errorf("the CSV file was changed")
	}
	b, err := ioutil.ReadFile(out)
	if err != nil {
		return nil, fmt.Errorf("no output file: %v", err)
	}
	return b, nil
}

// checkItem verifies a listed model against the reference fits.
func checkItem(c *cliCase, fits []kit.ModelFit, sel []int, coeff []float64, score float64, seen map[int]bool) error {
	m := 0
	for i, j := range sel {
		if j < 0 || j >= c.P || (i > 0 && j <= sel[i-1]) {
			return fmt.Errorf("selection %v", sel)
		}
		m |= 1 << uint(j)
	}
	if m == 0 {
		return fmt.Errorf("a model without features is listed")
	}
	if seen[m] {
		return fmt.Errorf("model %v is listed twice", sel)
	}
	seen[m] = true
	if !(math.Abs(score+fits[m].Aicc) <= kit.ScoreTol*(1+math.Abs(score))) {
		return fmt.Errorf("model %v has score %v, its AICc is %v", sel, score, fits[m].Aicc)
	}
	if len(coeff) != len(sel) {
		return fmt.Errorf("model %v has coefficients %v", sel, coeff)
	}
	if err := kit.CheckLS(&c.Prob, sel, coeff); err != nil {
		return fmt.Errorf("model %v: %w", sel, err)
	}
	return nil
}

func runBnb(c cliCase, o *kit.Obs) error {
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	var extra []string
	if c.MaxQueue > 0 {
		extra = append(extra, "--maxqueue", strconv.Itoa(c.MaxQueue))
	}
	if c.Style%3 == 0 {
		extra = append(extra, "--cutoff", "0")
	}
	b, err := c.call("bnb", "bnbSearch.json", extra...)
	if err != nil {
		return err
	}
	var res struct {
		MaxItems int `json:"maxItems"`
		Items    []struct {
			Selected []int     `json:"selected"`
			Tot      int       `json:"totNumFeatures"`
			Score    float64   `json:"score"`
			Coeff    []float64 `json:"coeff"`
		} `json:"items"`
	}
	if err := json.Unmarshal(b, &res); err != nil {
		return fmt.Errorf("output is not JSON: %v", err)
	}
	if len(res.Items) == 0 || len(res.Items) > 10 {
		return fmt.Errorf("%d models are listed", len(res.Items))
	}
	if res.MaxItems != 10 {
		return fmt.Errorf("the list has room for %d models instead of 10", res.MaxItems)
	}
	seen := map[int]bool{}
	for i, n := range res.Items {
		if n.Tot != c.P {
			return fmt.Errorf("model %d is one of %d features, the file has %d", i, n.Tot, c.P)
		}
		if err := checkItem(&c, fits, n.Selected, n.Coeff, n.Score, seen); err != nil {
			return err
		}
		if i > 0 && n.Score > res.Items[i-1].Score {
			return fmt.Errorf("scores are not descending: %v after %v", n.Score, res.Items[i-1].Score)
		}
	}
	best := math.Inf(1)
	for m := 1; m < len(fits); m++ {
		if len(fits[m].Idx) < c.N {
			best = math.Min(best, fits[m].Aicc)
		}
	}
	if !(math.Abs(res.Items[0].Score+best) <= kit.ScoreTol*(1+math.Abs(best))) {
		return fmt.Errorf("the first model %v has AICc %v, the optimum is %v", res.Items[0].Selected, -res.Items[0].Score, best)
	}
	o.NonTrivial()
	if c.Target != c.P {
		o.Label("target not last")
	}
	return nil
}

// genQueue draws noise, for which the search can hardly cut any branch.
func genQueue(t *rapid.T) cliCase {
	c := cliCase{Prob: kit.Prob{N: rapid.IntRange(60, 150).Draw(t, "n"), P: rapid.IntRange(7, 9).Draw(t, "p")},
		MaxQueue: 1, Style: rapid.IntRange(0, 15).Draw(t, "style")}
	c.Target = c.P
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	for i := 0; i < c.N*c.P; i++ {
		c.X = append(c.X, r.N())
	}
	for i := 0; i < c.N; i++ {
		c.Y = append(c.Y, r.N())
	}
	return c
}

// runQueue: the size of the queue is limited to what was asked for, and only then
// branches are given up.
func runQueue(c cliCase, o *kit.Obs) error {
	// The widest level of the tree has to have nodes enough that are not cut by the
	// final best score: the queue is first in, first out and few nodes are under way
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	best, most := math.Inf(1), 0
	for _, f := range fits[1:] {
		best = math.Min(best, f.Aicc)
	}
	for l := 1; l < c.P; l++ {
		n := 0
		for m := 0; m < 1<<uint(l); m++ {
			k := 0
			for j := 0; j < l; j++ {
				k += m >> uint(j) & 1
			}
			if kit.AiccRef(k, c.N, fits[m|((1<<uint(c.P)-1)&^(1<<uint(l)-1))].Rss) < best-1e-6 {
				n++
			}
		}
		if n > most {
			most = n
		}
	}
	if most < 8 {
		return kit.ErrSkip
	}
	dir, done, err := kit.Scratch()
	if err != nil {
		return kit.ErrSkip
	}
	defer done()
	if err := ioutil.WriteFile(filepath.Join(dir, "in.csv"), []byte(kit.CSVText(&c.Prob, kit.CLINames(c.P, c.Style), c.Target, c.Style)), 0600); err != nil {
		return kit.ErrSkip
	}
	for _, limited := range []bool{true, false} {
		args := []string{"bnb", "--csv", "in.csv", "--out", "o.json"}
		if limited {
			args = append(args, "--maxqueue", strconv.Itoa(c.MaxQueue))
		} else if c.Style%2 == 0 {
			args = append(args, "--maxqueue", "5000")
		}
		said, err := kit.RunBin(dir, "goselect", args...)
		if err != nil {
			return err
		}
		if got := bytes.Contains([]byte(said), []byte("maximum buffer size")); got != limited {
			return fmt.Errorf("%v: the limit was reached: %v", args, got)
		}
	}
	o.NonTrivial()
	return nil
}

func runSA(c cliCase, o *kit.Obs) error {
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	var extra []string
	if c.Sweeps > 0 {
		extra = append(extra, "--sweeps", strconv.Itoa(c.Sweeps))
	}
	b, err := c.call("sasearch", "saSearch.json", extra...)
	if err != nil {
		return err
	}
	type item struct {
		Selection []int
		Coeff     []float64
		Score     float64
	}
	var res struct {
		Cap                 int
		Items               []item
		BestItem, WorstItem *item
	}
	if err := json.Unmarshal(b, &res); err != nil {
		return fmt.Errorf("output is not JSON: %v", err)
	}
	if len(res.Items) == 0 || len(res.Items) > res.Cap {
		return fmt.Errorf("%d models in a list of %d", len(res.Items), res.Cap)
	}
	seen := map[int]bool{}
	hi, lo := math.Inf(-1), math.Inf(1)
	for _, n := range res.Items {
		if err := checkItem(&c, fits, n.Selection, n.Coeff, n.Score, seen); err != nil {
			return err
		}
		hi, lo = math.Max(hi, n.Score), math.Min(lo, n.Score)
	}
	if res.BestItem == nil || res.WorstItem == nil || res.BestItem.Score != hi || res.WorstItem.Score != lo {
		return fmt.Errorf("best and worst item have scores %v, %v; the list goes from %v to %v", res.BestItem, res.WorstItem, lo, hi)
	}
	for _, q := range []*item{res.BestItem, res.WorstItem} {
		if err := checkItem(&c, fits, q.Selection, q.Coeff, q.Score, map[int]bool{}); err != nil {
			return err
		}
	}
	best := math.Inf(1)
	for m := 1; m < len(fits); m++ {
		if len(fits[m].Idx) < c.N/2 { // larger models are not explored
			best = math.Min(best, fits[m].Aicc)
		}
	}
	// with fewer than six rows models of one feature are the largest, and none
	// can be reached from another one
	if (c.Sweeps == 0 || c.Sweeps >= 40) && c.P <= 4 && c.N >= 6 {
		// every model is visited thousands of times at high temperature
		if -hi > best+kit.ScoreTol*(1+math.Abs(best)) {
			return fmt.Errorf("the best model listed has AICc %v, the optimum is %v", -hi, best)
		}
		o.Label("optimum asserted")
	}
	if len(res.Items) > 1 {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C27",
		Rule: "A case is a CSV file with 4-20 noisy rows and 3-6 features, also fewer rows than features (blanks, CRLF, exponents, quoted names; target at any position, given positive or negative), and the options of the command (defaults left out or not, output file new or existing). queue: noise (60-150 rows, 7-9 features) searched with a queue of one node and with a large one. Non-trivial: bnb lists the optimum / sasearch lists at least two models.",
		Subs: []kit.Sub{kit.NewSub("bnb", 250, 6000, gen, runBnb), kit.NewSub("queue", 30, 400, genQueue, runQueue), kit.NewSub("bnb-large", 40, 1000, kit.Large(gen), runBnb), kit.NewSub("sasearch-large", 40, 1000, kit.Large(gen), runSA), kit.NewSub("sasearch", 300, 8000, gen, runSA)}})
}
