package kit

import (
	"math"

	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// Prob is a regression problem with explicit data (row-major X).
type Prob struct {
	N    int       `json:"n"`
	P    int       `json:"p"`
	X    []float64 `json:"x"`
	Y    []float64 `json:"y"`
	Kind string    `json:"kind,omitempty"`
}

// Guard surrounds the values of a matrix that is part of a larger one.
const Guard = 977.5

// Dense returns a fresh copy of the design matrix. For about half of the
// problems (a function of the values) it is a part of a larger matrix.
func (p *Prob) Dense() *mat.Dense {
	h := uint64(p.N*31 + p.P)
	for i := 0; i < len(p.X) && i < 8; i++ {
		h = mix(h ^ math.Float64bits(p.X[i]))
	}
	if p.N == 0 || p.P == 0 || h>>20&1 == 0 {
		return keepDense(mat.NewDense(p.N, p.P, append([]float64{}, p.X...)))
	}
	return keepDense(Strided(p.N, p.P, p.X, int(h>>30&3), int(h>>40&3), int(h>>50&1)))
}

// Strided returns a matrix with the values that is a part of a larger matrix
// with left, right and (above and below) rows columns around it.
func Strided(n, p int, x []float64, left, right, rows int) *mat.Dense {
	if left+right+rows == 0 {
		right = 1
	}
	big := mat.NewDense(n+2*rows, p+left+right, nil)
	big.Apply(func(int, int, float64) float64 { return Guard }, big)
	m := big.Slice(rows, rows+n, left, left+p).(*mat.Dense)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			m.Set(i, j, x[i*p+j])
		}
	}
	return m
}

// GuardOK tells whether the surroundings of a matrix from Strided (or Dense)
// are unchanged.
func GuardOK(m mat.Matrix) bool {
	d, ok := m.(*mat.Dense)
	if !ok {
		return true
	}
	raw := d.RawMatrix()
	data := raw.Data[:cap(raw.Data)]
	for i, v := range data {
		if i%raw.Stride < raw.Cols && i/raw.Stride < raw.Rows {
			continue
		}
		if v != Guard && raw.Stride > raw.Cols {
			return false
		}
	}
	return true
}

// Target returns a fresh copy of y.
func (p *Prob) Target() []float64 { return keepSlice(append([]float64{}, p.Y...)) }

// Cols returns the columns.
func (p *Prob) Cols() Cols {
	c := make(Cols, p.P)
	for j := range c {
		c[j] = make([]float64, p.N)
		for i := range c[j] {
			c[j][i] = p.X[i*p.P+j]
		}
	}
	return c
}

// At returns X[i][j].
func (p *Prob) At(i, j int) float64 { return p.X[i*p.P+j] }

// DropRow returns the problem without row r.
func (p *Prob) DropRow(r int) Prob {
	q := Prob{N: p.N - 1, P: p.P, Kind: p.Kind}
	for i := 0; i < p.N; i++ {
		if i != r {
			q.X = append(q.X, p.X[i*p.P:(i+1)*p.P]...)
			q.Y = append(q.Y, p.Y[i])
		}
	}
	return q
}

// DropCol returns the problem without column c.
func (p *Prob) DropCol(c int) Prob {
	q := Prob{N: p.N, P: p.P - 1, Y: append([]float64{}, p.Y...), Kind: p.Kind}
	for i := 0; i < p.N; i++ {
		for j := 0; j < p.P; j++ {
			if j != c {
				q.X = append(q.X, p.X[i*p.P+j])
			}
		}
	}
	return q
}

// Rounded returns the problem with values rounded to d decimals.
func (p *Prob) Rounded(d int) (Prob, bool) {
	f := math.Pow(10, float64(d))
	q := Prob{N: p.N, P: p.P, Kind: p.Kind}
	ch := false
	r := func(v float64) float64 {
		w := math.Round(v*f) / f
		if w != v {
			ch = true
		}
		return w
	}
	for _, v := range p.X {
		q.X = append(q.X, r(v))
	}
	for _, v := range p.Y {
		q.Y = append(q.Y, r(v))
	}
	return q, ch
}

// SmallerProbs proposes reduced problems (rows dropped, values rounded).
func (p *Prob) SmallerProbs(minN int) []Prob {
	var out []Prob
	if p.N > minN {
		for i := 0; i < p.N; i++ {
			out = append(out, p.DropRow(i))
		}
	}
	for _, d := range []int{0, 1, 2, 4} {
		if q, ch := p.Rounded(d); ch {
			out = append(out, q)
		}
	}
	return out
}

// rng is a small pure generator: everything below is a function of drawn values.
type Rng struct{ s uint64 }

// NewRng makes a generator.
func NewRng(seed uint64) *Rng { return &Rng{s: mix(seed ^ 0xabcdef)} }

// U64 returns the next value.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// F returns a uniform value in [0,1).
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// N returns a standard normal value.
func (r *Rng) N() float64 {
	u := r.F()
	for u == 0 {
		u = r.F()
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.F())
}

// I returns an int in [0,n).
func (r *Rng) I(n int) int { return int(r.U64() % uint64(n)) }

// Perm returns a permutation.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.I(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ProbOpts steers GenProb.
type ProbOpts struct {
	MinN, MaxN int
	MinP, MaxP int
	// Bias: 0 sometimes, 1 always, -1 never: first column constant.
	Bias int
	// Kinds allowed for columns; empty = all.
	Kinds []string
	// Noise: minimum relative noise in y (default 0.05) so fits are not exact.
	MinNoise float64
	// MaxScale: columns may be scaled by up to 10^±MaxScale.
	MaxScale int
	// Wide: 0 any, 1 force n > p, -1 force n <= p
	Shape int
	// BigN, BigP: largest sizes within Large (default: no change)
	BigN, BigP int
	// YMin, YMax: sometimes the target is scaled by 10^YMin to 10^YMax
	YMin, YMax float64
	// Masked: sometimes features hide each other (see mask)
	Masked bool
}

// large is set while a generator passed to Large runs.
var large bool

// Large makes a generator draw sizes beyond any small block, batch or buffer.
func Large[T any](g func(*rapid.T) T) func(*rapid.T) T {
	return func(t *rapid.T) T {
		large, huge, sizes = true, 0, 0
		if rapid.IntRange(0, 29).Draw(t, "huge") == 0 {
			huge = rapid.IntRange(1, 3).Draw(t, "huge size")
		}
		defer func() { large, huge = false, 0 }()
		return g(t)
	}
}

// huge, when not zero, is the number of the size that is drawn ten times larger; the
// other sizes of such a case are small. sizes counts the sizes drawn.
var huge, sizes int

// IsLarge tells a generator how it was called.
func IsLarge() bool { return large }

// Upto draws a size: from lo to hi, or up to big within Large. One of 30 cases of
// Large has one size of up to ten times big.
func Upto(t *rapid.T, lo, hi, big int, name string) int {
	if large {
		sizes++
		if huge > 0 && big > 20 {
			if sizes == huge {
				return rapid.IntRange(big, 10*big).Draw(t, name)
			}
			return rapid.IntRange(lo, hi).Draw(t, name)
		}
		if rapid.IntRange(0, 2).Draw(t, name+" large") > 0 {
			return rapid.IntRange(hi, big).Draw(t, name)
		}
		hi = big
	}
	return rapid.IntRange(lo, hi).Draw(t, name)
}

// Count draws a number from lo to hi: uniformly or biased to the ends.
func Count(t *rapid.T, lo, hi int, name string) int {
	if rapid.Bool().Draw(t, name+" biased") {
		return rapid.IntRange(lo, hi).Draw(t, name)
	}
	v := 0
	for i := 0; i < 12; i++ {
		v *= 2
		if rapid.Bool().Draw(t, name+" bit") {
			v++
		}
	}
	return lo + v%(hi-lo+1)
}

// List draws a slice with any length from lo to hi (rapid's own slices are
// short: about five elements more than the minimum on average).
func List[E any](t *rapid.T, elem *rapid.Generator[E], lo, hi int, name string) []E {
	n := Count(t, lo, hi, name+" length")
	return rapid.SliceOfN(elem, n, n).Draw(t, name)
}

// Without gives copies of a list with a part left out: halves first, then
// single elements.
func Without[E any](l []E) [][]E {
	var out [][]E
	if len(l) > 3 {
		h := len(l) / 2
		out = append(out, append([]E{}, l[h:]...), append([]E{}, l[:h]...))
	}
	for i := range l {
		out = append(out, append(append([]E{}, l[:i]...), l[i+1:]...))
	}
	return out
}

// ColumnKinds are the column families.
var ColumnKinds = []string{"gauss", "int", "binary", "corr", "poly", "dup"}

// GenProb draws a regression problem.
func GenProb(t *rapid.T, o ProbOpts) Prob {
	var p int
	lo, hi := o.MinN, o.MaxN
	if huge == 1 && o.BigP > 0 && o.Shape >= 0 {
		// many more rows than usual, few columns
		p = rapid.IntRange(o.MinP, o.MaxP).Draw(t, "p")
		lo, hi = o.BigN, 8*o.BigN
	} else if large && o.BigP > 0 {
		huge = 0
		p = Upto(t, o.MinP, o.MaxP, o.BigP, "p")
		hi = o.BigN
		if rapid.IntRange(0, 2).Draw(t, "n large") > 0 {
			lo = o.MaxN
		}
	} else {
		p = rapid.IntRange(o.MinP, o.MaxP).Draw(t, "p")
	}
	if o.Shape > 0 && lo < p+2 {
		lo = p + 2
	}
	if o.Shape < 0 && hi > p {
		hi = p
	}
	if hi < lo {
		hi = lo
	}
	n := rapid.IntRange(lo, hi).Draw(t, "n")
	kinds := o.Kinds
	if len(kinds) == 0 {
		kinds = ColumnKinds
	}
	kind := rapid.SampledFrom(append([]string{"mixed"}, kinds...)).Draw(t, "kind")
	bias := o.Bias > 0
	if o.Bias == 0 {
		bias = rapid.Bool().Draw(t, "bias")
	}
	// target: sparse combination plus noise, pure noise, or a strong few
	sig := rapid.IntRange(0, 3).Draw(t, "signal")
	noise := math.Max(o.MinNoise, []float64{0.05, 0.3, 1.0}[rapid.IntRange(0, 2).Draw(t, "noise")])
	yint := rapid.IntRange(0, 5).Draw(t, "yint") == 0
	scale := 0
	if o.MaxScale > 0 && rapid.IntRange(0, 3).Draw(t, "scaled") == 0 {
		scale = o.MaxScale
	}
	yscale := 1.0
	if o.YMin < o.YMax && rapid.IntRange(0, 5).Draw(t, "yscaled") == 0 {
		yscale = math.Pow(10, rapid.Float64Range(o.YMin, o.YMax).Draw(t, "yscale"))
	}
	masked := o.Masked && rapid.IntRange(0, 3).Draw(t, "masked") == 0
	r := NewRng(rapid.Uint64().Draw(t, "data"))
	pr := BuildProb(r, n, p, kind, kinds, bias, sig, noise, yint, scale)
	if masked {
		pr.mask(r, bias, noise)
	}
	if yscale != 1 {
		for i := range pr.Y {
			pr.Y[i] *= yscale
		}
		pr.Kind += "+yscaled"
	}
	return pr
}

// mask replaces the data so that the first features to be selected hide
// others: features that share factors with either sign, and a target made for
// drawn correlations with them (some nearly equal, some nearly zero), so that
// features enter, leave and change sign along a path.
func (pr *Prob) mask(r *Rng, bias bool, noise float64) {
	n, p := pr.N, pr.P
	first := 0
	if bias {
		first = 1
	}
	if n < 3 || p-first < 2 {
		return
	}
	cols := pr.Cols()
	if r.I(3) > 0 {
		m := 2 + r.I(p)
		h := make(Cols, m)
		for k := range h {
			h[k] = make([]float64, n)
			for i := range h[k] {
				h[k][i] = r.N()
			}
		}
		for j := first; j < p; j++ {
			size := StdRef(cols[j])
			if size < 1e-9 {
				size = 1
			}
			own := []float64{0.05, 0.2, 0.5, 1}[r.I(4)]
			c := make([]float64, n)
			for k := 1 + r.I(3); k > 0; k-- {
				a := r.N()
				for i, v := range h[r.I(m)] {
					c[i] += a * v
				}
			}
			for i := range c {
				c[i] += own * r.N()
			}
			f := size / StdRef(c)
			for i := range c {
				c[i] *= f
			}
			cols[j] = c
		}
	}
	var A Cols
	var want []float64
	for j := first; j < p; j++ {
		m, s := MeanRef(cols[j]), StdRef(cols[j])
		c := make([]float64, n)
		for i := range c {
			c[i] = (cols[j][i] - m) / math.Max(s, 1e-9)
		}
		A = append(A, c)
		v := []float64{1, 1, 0.97, 0.3, 0.05, 0, r.N()}[r.I(7)]
		if r.I(2) == 0 {
			v = -v
		}
		want = append(want, v)
	}
	P := PInv(A, 1e-3*math.Sqrt(float64(n)))
	y := make([]float64, n)
	for j := range P {
		for i := range y {
			y[i] += want[j] * P[j][i]
		}
	}
	s := StdRef(y)
	if !(s > 1e-9) {
		return
	}
	f, icpt := (0.5+2*r.F())/s, 3*r.N()
	for i := range y {
		y[i] = f*y[i] + icpt + 0.1*noise*r.N()
	}
	for j := range cols {
		for i := range cols[j] {
			pr.X[i*p+j] = cols[j][i]
		}
	}
	pr.Y = y
	pr.Kind += "+masked"
}

// BuildProb expands the drawn parameters into data.
func BuildProb(r *Rng, n, p int, kind string, kinds []string, bias bool, sig int, noise float64, yint bool, scale int) Prob {
	cols := make(Cols, p)
	tag := kind
	for j := range cols {
		c := make([]float64, n)
		k := kind
		if k == "mixed" {
			k = kinds[r.I(len(kinds))]
		}
		if j == 0 && (k == "corr" || k == "dup") {
			k = "gauss"
		}
		if (k == "dup") && r.I(3) != 0 {
			k = "gauss"
		}
		switch k {
		case "int":
			for i := range c {
				c[i] = float64(r.I(11) - 5)
			}
		case "binary":
			for i := range c {
				c[i] = float64(r.I(2))
			}
		case "corr":
			src := cols[r.I(j)]
			e := []float64{0.01, 0.1, 0.5}[r.I(3)]
			for i := range c {
				c[i] = src[i] + e*r.N()
			}
		case "poly":
			pw := float64(j%4 + 1)
			for i := range c {
				x := -1 + 2*float64(i)/math.Max(1, float64(n-1)) + 0.01*r.N()
				c[i] = math.Pow(x, pw) + 0.05*r.N()
			}
		case "dup":
			copy(c, cols[r.I(j)])
		default:
			for i := range c {
				c[i] = r.N()
			}
		}
		if scale > 0 && k != "dup" {
			f := math.Pow(10, float64(r.I(2*scale+1)-scale))
			for i := range c {
				c[i] *= f
			}
		}
		cols[j] = c
	}
	if bias {
		v := []float64{1, 1, 1, 2.5, -3}[r.I(5)]
		for i := range cols[0] {
			cols[0][i] = v
		}
		tag += "+bias"
	}
	y := make([]float64, n)
	nz := 0
	switch sig {
	case 1:
		nz = 1 + r.I(2)
	case 2:
		nz = 1 + r.I(p)
	case 3:
		nz = p
	}
	for k := 0; k < nz; k++ {
		j := r.I(p)
		b := 2 * r.N()
		m := MaxAbs(cols[j])
		if m == 0 {
			m = 1
		}
		for i := range y {
			y[i] += b * cols[j][i] / m
		}
	}
	for i := range y {
		y[i] += noise * r.N()
	}
	if yint {
		for i := range y {
			y[i] = math.Round(4 * y[i])
		}
		tag += "+yint"
	}
	pr := Prob{N: n, P: p, X: make([]float64, n*p), Y: y, Kind: tag}
	for j := range cols {
		for i := range cols[j] {
			pr.X[i*p+j] = cols[j][i]
		}
	}
	return pr
}

// SameDense compares a matrix with the problem's X exactly.
func (p *Prob) SameX(m mat.Matrix) bool {
	r, c := m.Dims()
	if r != p.N || c != p.P || !GuardOK(m) {
		return false
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if m.At(i, j) != p.At(i, j) {
				return false
			}
		}
	}
	return true
}

// SameSlice compares exactly.
func SameSlice(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SameInts compares exactly.
func SameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// IdxOf returns the selected indices of a model.
func IdxOf(model []bool) []int {
	r := []int{}
	for i, b := range model {
		if b {
			r = append(r, i)
		}
	}
	return r
}

// ModelStr renders a model as 0/1.
func ModelStr(m []bool) string {
	b := make([]byte, len(m))
	for i, v := range m {
		b[i] = '0'
		if v {
			b[i] = '1'
		}
	}
	return string(b)
}
