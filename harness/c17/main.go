// C17: CSV files are read faithfully.
package main

import (
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type cell struct {
	Text  string  `json:"text"` // content of the cell
	Value float64 `json:"value"`
	Num   bool    `json:"num"`
	Quote bool    `json:"quote"`
}

type csvCase struct {
	Names  []string `json:"names"`
	QNames []bool   `json:"qnames"`
	Cells  [][]cell `json:"cells"`
	Target int      `json:"target"`
	CRLF   bool     `json:"crlf"`
	Blank  []int    `json:"blank"` // number of blank lines after line i
	NoEnd  bool     `json:"noend"` // no line end after the last line
	Long   int      `json:"long"`  // 1: long name, 2: number with many digits, 3: many blanks
	At     int      `json:"at"`    // the cell that is long
	Len    int      `json:"len"`
}

func (c csvCase) Smaller() []csvCase {
	var out []csvCase
	if c.Long > 0 {
		d := c
		d.Long = 0
		out = append(out, d)
		if c.Len > 10 {
			d = c
			d.Len /= 2
			out = append(out, d)
		}
	}
	if len(c.Cells) > 1 {
		for i := range c.Cells {
			d := c
			d.Cells = append(append([][]cell{}, c.Cells[:i]...), c.Cells[i+1:]...)
			d.Blank = append(append([]int{}, c.Blank[:i+1]...), c.Blank[i+2:]...)
			out = append(out, d)
		}
	}
	if len(c.Names) > 2 {
		for j := range c.Names {
			d := c
			d.Names = append(append([]string{}, c.Names[:j]...), c.Names[j+1:]...)
			d.QNames = append(append([]bool{}, c.QNames[:j]...), c.QNames[j+1:]...)
			d.Cells = nil
			for _, r := range c.Cells {
				d.Cells = append(d.Cells, append(append([]cell{}, r[:j]...), r[j+1:]...))
			}
			if d.Target >= len(d.Names) || -d.Target > len(d.Names) {
				continue
			}
			out = append(out, d)
		}
	}
	for i := range c.Cells {
		for j := range c.Cells[i] {
			if c.Cells[i][j].Text != "0" {
				d := c
				d.Cells = nil
				for _, r := range c.Cells {
					d.Cells = append(d.Cells, append([]cell{}, r...))
				}
				d.Cells[i][j] = cell{Text: "0", Num: true}
				out = append(out, d)
			}
		}
	}
	return out
}

func drawNumber(t *rapid.T) float64 {
	switch rapid.IntRange(0, 5).Draw(t, "nkind") {
	case 0:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "int"))
	case 1:
		return rapid.Float64Range(-10, 10).Draw(t, "small")
	case 2:
		return math.Round(rapid.Float64Range(-1e6, 1e6).Draw(t, "dec")*1000) / 1000
	case 3:
		v := rapid.Float64().Draw(t, "any")
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return 1.5
		}
		return v
	case 4:
		return math.Pow(10, rapid.Float64Range(-300, 300).Draw(t, "mag")) * rapid.SampledFrom([]float64{-1, 1}).Draw(t, "sign")
	}
	return 0
}

func drawCell(t *rapid.T) cell {
	c := cell{}
	if rapid.IntRange(0, 5).Draw(t, "text") == 0 {
		c.Text = rapid.SampledFrom([]string{"", "abc", "1,5", "1.2.3", "--1", "n/a", "1 2", "?", "é", "1e", "e5", "one", "-", "12abc", "x1", "1-2", "\"q\"", "12 %", "$3"}).Draw(t, "word")
		c.Quote = strings.ContainsAny(c.Text, ",\"\n") || rapid.IntRange(0, 3).Draw(t, "quote") == 0
		return c
	}
	v := drawNumber(t)
	c.Num, c.Value = true, v
	neg := math.Signbit(v)
	a := math.Abs(v)
	var s string
	switch rapid.IntRange(0, 7).Draw(t, "format") {
	case 0:
		s = strconv.FormatFloat(a, 'e', -1, 64)
	case 1:
		s = strconv.FormatFloat(a, 'E', -1, 64)
	case 2:
		if a < 1e20 && (a > 1e-20 || a == 0) {
			s = strconv.FormatFloat(a, 'f', -1, 64)
			if strings.Contains(s, ".") {
				s += "000"
			} else {
				s += "."
			}
			s = "00" + s
		} else {
			s = strconv.FormatFloat(a, 'g', -1, 64)
		}
	case 3:
		s = strconv.FormatFloat(a, 'f', -1, 64)
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		}
	case 4:
		s = strconv.FormatFloat(a, 'e', 25, 64)
	default:
		s = strconv.FormatFloat(a, 'g', -1, 64)
	}
	if neg {
		s = "-" + s
	} else if rapid.IntRange(0, 4).Draw(t, "plus") == 0 {
		s = "+" + s
	}
	switch rapid.IntRange(0, 7).Draw(t, "pad") {
	case 0:
		s = " " + s
	case 1:
		s = s + " "
	case 2:
		s = "  \t" + s + "\t "
	}
	c.Text = s
	c.Quote = rapid.IntRange(0, 5).Draw(t, "quote") == 0
	return c
}

func gen(t *rapid.T) csvCase {
	nc := kit.Upto(t, 2, 7, 80, "cols")
	nr := kit.Upto(t, 1, 12, 120, "rows")
	c := csvCase{}
	for j := 0; j < nc; j++ {
		n := rapid.SampledFrom([]string{"x", "y", "feat 1", " lead", "trail ", "a,b", "q\"q", "line\nbreak", "ü", "", "1.5", "x^2*y", "#c"}).Draw(t, "name")
		if rapid.Bool().Draw(t, "number it") {
			n += strconv.Itoa(j)
		}
		c.Names = append(c.Names, n)
		c.QNames = append(c.QNames, strings.ContainsAny(n, ",\"\n") || rapid.IntRange(0, 3).Draw(t, "qname") == 0)
	}
	c.Blank = append(c.Blank, 0)
	blanks := rapid.IntRange(0, 3).Draw(t, "blanks") == 0
	for i := 0; i < nr; i++ {
		var row []cell
		for j := 0; j < nc; j++ {
			row = append(row, drawCell(t))
		}
		c.Cells = append(c.Cells, row)
		b := 0
		if blanks {
			b = rapid.IntRange(0, 2).Draw(t, "blank")
		}
		c.Blank = append(c.Blank, b)
	}
	c.Target = rapid.IntRange(-nc, nc-1).Draw(t, "target")
	if kit.IsLarge() {
		c.Long = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "long")
		c.At = rapid.IntRange(0, nr*nc-1).Draw(t, "where")
		c.Len = rapid.SampledFrom([]int{4095, 4096, 4097, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131072, 200000}).Draw(t, "length")
	}
	c.CRLF = rapid.IntRange(0, 3).Draw(t, "crlf") == 0
	c.NoEnd = rapid.IntRange(0, 3).Draw(t, "noend") == 0
	return c
}

// long returns the table with one very long name or cell.
func (c csvCase) long() csvCase {
	if c.Long == 0 || len(c.Cells) == 0 {
		return c
	}
	i, j := c.At/len(c.Names)%len(c.Cells), c.At%len(c.Names)
	if c.Long == 1 {
		c.Names = append([]string{}, c.Names...)
		c.Names[j] += strings.Repeat("n", c.Len)
		return c
	}
	c.Cells = append([][]cell{}, c.Cells...)
	c.Cells[i] = append([]cell{}, c.Cells[i]...)
	if v := &c.Cells[i][j]; c.Long == 2 {
		// many digits
		*v = cell{Text: "0.25" + strings.Repeat("0", c.Len), Value: 0.25, Num: true}
	} else {
		v.Text = strings.Repeat(" ", c.Len) + v.Text
	}
	return c
}

func (c csvCase) render() string {
	c = c.long()
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	q := func(s string, quote bool) string {
		if quote {
			return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
		}
		return s
	}
	var b strings.Builder
	for j, n := range c.Names {
		if j > 0 {
			b.WriteString(",")
		}
		b.WriteString(q(n, c.QNames[j]))
	}
	b.WriteString(nl)
	b.WriteString(strings.Repeat(nl, c.Blank[0]))
	for i, r := range c.Cells {
		for j, v := range r {
			if j > 0 {
				b.WriteString(",")
			}
			b.WriteString(q(v.Text, v.Quote))
		}
		if i+1 == len(c.Cells) && c.NoEnd {
			break
		}
		b.WriteString(nl)
		b.WriteString(strings.Repeat(nl, c.Blank[i+1]))
	}
	return b.String()
}

func (c csvCase) check(d *featselect.Dataset) error {
	c = c.long()
	nc := len(c.Names)
	target := c.Target
	if target < 0 {
		target += nc
	}
	if d.TargetCol != target {
		return fmt.Errorf("target column %d instead of %d", d.TargetCol, target)
	}
	if len(d.Names) != nc {
		return fmt.Errorf("names %.300q instead of %.300q", d.Names, c.Names)
	}
	for j := range c.Names {
		if d.Names[j] != c.Names[j] {
			return fmt.Errorf("names %.300q instead of %.300q", d.Names, c.Names)
		}
	}
	r, k := d.X.Dims()
	if r != len(c.Cells) || k != nc-1 || len(d.Y) != r {
		return fmt.Errorf("X is %dx%d, Y has %d values; the file has %d rows of %d columns", r, k, len(d.Y), len(c.Cells), nc)
	}
	for i, row := range c.Cells {
		for j, v := range row {
			want := v.Value
			got := 0.0
			switch {
			case j == target:
				got = d.Y[i]
			case j < target:
				got = d.X.At(i, j)
			default:
				got = d.X.At(i, j-1)
			}
			if got != want {
				return fmt.Errorf("row %d column %d (target %d): %.100q is read as %v", i, j, target, v.Text, got)
			}
		}
	}
	for j := 0; j < nc-1; j++ {
		o := j
		if j >= target {
			o++
		}
		if d.GetFeatName(j) != c.Names[o] {
			return fmt.Errorf("feature %d is called %.100q instead of %.100q", j, d.GetFeatName(j), c.Names[o])
		}
	}
	return nil
}

func run(c csvCase, o *kit.Obs) error {
	for _, r := range c.Cells {
		empty := true
		for _, v := range r {
			empty = empty && v.Text == "" && !v.Quote
		}
		if empty && len(r) == 1 {
			return kit.ErrSkip
		}
	}
	text := c.render()
	if err := c.check(featselect.ParseCSV(strings.NewReader(text), c.Target)); err != nil {
		return fmt.Errorf("ParseCSV: %w", err)
	}
	odd, word := 0, 0
	for _, r := range c.Cells {
		for _, v := range r {
			if !v.Num {
				word++
			} else if v.Text != strconv.FormatFloat(v.Value, 'g', -1, 64) || v.Quote {
				odd++
			}
		}
	}
	if odd > 0 && c.Target != -1 {
		o.NonTrivial()
	}
	if word > 0 {
		o.Label("text cells")
	}
	if c.Target < 0 {
		o.Label("negative target")
	}
	if c.Long > 0 {
		o.Label("a very long line")
	}
	if c.CRLF {
		o.Label("CRLF")
	}
	return nil
}

// rowsCase is a long file of plain numbers.
type rowsCase struct {
	Rows   int    `json:"rows"`
	Cols   int    `json:"cols"`
	Target int    `json:"target"`
	Digits int    `json:"digits"`
	Blank  int    `json:"blank"` // a blank line after so many rows, if positive
	CRLF   bool   `json:"crlf"`
	File   bool   `json:"file"`
	Seed   uint64 `json:"seed"`
}

func (c rowsCase) Smaller() []rowsCase {
	var out []rowsCase
	for _, n := range []int{c.Rows / 2, c.Rows * 9 / 10, c.Rows - 1} {
		if n > 0 && n < c.Rows {
			d := c
			d.Rows = n
			out = append(out, d)
		}
	}
	return out
}

func genRows(t *rapid.T) rowsCase {
	c := rowsCase{Cols: rapid.IntRange(2, 6).Draw(t, "cols"), Digits: rapid.IntRange(1, 12).Draw(t, "digits")}
	c.Rows = 1<<uint(rapid.IntRange(6, 13).Draw(t, "bits")) + rapid.IntRange(-2, 2).Draw(t, "off")
	if rapid.Bool().Draw(t, "any") {
		c.Rows = rapid.IntRange(1, 12000).Draw(t, "rows")
	}
	c.Target = rapid.IntRange(-c.Cols, c.Cols-1).Draw(t, "target")
	if rapid.IntRange(0, 2).Draw(t, "blanks") == 0 {
		c.Blank = rapid.IntRange(1, 2000).Draw(t, "blank")
	}
	c.CRLF = rapid.IntRange(0, 3).Draw(t, "crlf") == 0
	c.File = rapid.Bool().Draw(t, "file")
	c.Seed = rapid.Uint64().Draw(t, "seed")
	return c
}

func runRows(c rowsCase, o *kit.Obs) error {
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	target := c.Target
	if target < 0 {
		target += c.Cols
	}
	r := kit.NewRng(c.Seed)
	var b strings.Builder
	var names []string
	for j := 0; j < c.Cols; j++ {
		names = append(names, "x"+strconv.Itoa(j))
	}
	b.WriteString(strings.Join(names, ",") + nl)
	vals := make([]float64, 0, c.Rows*c.Cols)
	for i := 0; i < c.Rows; i++ {
		for j := 0; j < c.Cols; j++ {
			s := strconv.FormatFloat(100*r.N(), 'g', c.Digits, 64)
			v, _ := strconv.ParseFloat(s, 64)
			vals = append(vals, v)
			if j > 0 {
				b.WriteByte(',')
			}
			b.WriteString(s)
		}
		b.WriteString(nl)
		if c.Blank > 0 && i%c.Blank == c.Blank-1 {
			b.WriteString(nl)
		}
	}
	var d *featselect.Dataset
	if c.File {
		dir, err := ioutil.TempDir("", "verif-c17-")
		if err != nil {
			return kit.ErrSkip
		}
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "long.csv")
		if err := ioutil.WriteFile(f, []byte(b.String()), 0600); err != nil {
			return kit.ErrSkip
		}
		d = featselect.ReadCSV(f, c.Target)
	} else {
		d = featselect.ParseCSV(strings.NewReader(b.String()), c.Target)
	}
	if d == nil {
		return fmt.Errorf("a file of %d rows is not read", c.Rows)
	}
	nr, nc := d.X.Dims()
	if nr != c.Rows || nc != c.Cols-1 || len(d.Y) != c.Rows || len(d.Names) != c.Cols || d.TargetCol != target {
		return fmt.Errorf("X is %dx%d, Y has %d values, %d names, target %d; the file has %d rows of %d columns, target %d", nr, nc, len(d.Y), len(d.Names), d.TargetCol, c.Rows, c.Cols, target)
	}
	for i := 0; i < c.Rows; i++ {
		for j := 0; j < c.Cols; j++ {
			got := 0.0
			switch {
			case j == target:
				got = d.Y[i]
			case j < target:
				got = d.X.At(i, j)
			default:
				got = d.X.At(i, j-1)
			}
			if got != vals[i*c.Cols+j] {
				return fmt.Errorf("row %d of %d, column %d: %v is read as %v", i, c.Rows, j, vals[i*c.Cols+j], got)
			}
		}
	}
	if c.Rows > 100 {
		o.NonTrivial()
	}
	if c.Rows > 1024 {
		o.Label("more than 1024 rows")
	}
	return nil
}

func runFile(c csvCase, o *kit.Obs) error {
	dir, err := ioutil.TempDir("", "verif-c17-")
	if err != nil {
		return kit.ErrSkip
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "data.csv")
	if err := ioutil.WriteFile(f, []byte(c.render()), 0600); err != nil {
		return kit.ErrSkip
	}
	if err := c.check(featselect.ReadCSV(f, c.Target)); err != nil {
		return fmt.Errorf("ReadCSV: %w", err)
	}
	if b, err := ioutil.ReadFile(f); err != nil || string(b) != c.render() {
		return fmt.Errorf("ReadCSV changed the file")
	}
	if d := featselect.ReadCSV(filepath.Join(dir, "missing.csv"), c.Target); d != nil {
		return fmt.Errorf("ReadCSV of a missing file returns a dataset")
	}
	o.NonTrivial()
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C17",
		Rule: "A case is a table of 1-12 rows and 2-7 columns whose cells are numbers in many notations (signs, exponents, leading zeros, surrounding blanks) or text, rendered with random quoting, line ends and blank lines, and a target column. Non-trivial: a number in a notation other than the shortest one and a target that is not given as -1. rows: up to 12000 rows of plain numbers (non-trivial: more than 100).",
		Subs: []kit.Sub{kit.NewSub("parse", 40000, 1500000, gen, run), kit.NewSub("parse-large", 600, 3000, kit.Large(gen), run), kit.NewSub("file-large", 240, 1500, kit.Large(gen), runFile), kit.NewSub("rows", 400, 3000, genRows, runRows), kit.NewSub("file", 3000, 60000, gen, runFile)}})
}
