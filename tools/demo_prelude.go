var _ = fmt.Sprint
var _ = math.Abs
var _ *mat.Dense
var _ = rand.Intn
var _ = fs.Sum

// gen makes a gaussian design and a target that depends on every other column
func gen(seed int64, n, p int) (*mat.Dense, []float64) {
	r := rand.New(rand.NewSource(seed))
	X := mat.NewDense(n, p, nil)
	y := make([]float64, n)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			v := r.NormFloat64()
			X.Set(i, j, v)
			if j%2 == 0 {
				y[i] += v * float64(1+j)
			}
		}
		y[i] += 0.7 * r.NormFloat64()
	}
	return X, y
}

// solve is Gaussian elimination with pivoting
func solve(a [][]float64, b []float64) []float64 {
	n := len(b)
	for c := 0; c < n; c++ {
		p := c
		for r := c + 1; r < n; r++ {
			if math.Abs(a[r][c]) > math.Abs(a[p][c]) {
				p = r
			}
		}
		a[c], a[p] = a[p], a[c]
		b[c], b[p] = b[p], b[c]
		for r := c + 1; r < n; r++ {
			f := a[r][c] / a[c][c]
			for k := c; k < n; k++ {
				a[r][k] -= f * a[c][k]
			}
			b[r] -= f * b[c]
		}
	}
	for c := n - 1; c >= 0; c-- {
		for k := c + 1; k < n; k++ {
			b[c] -= a[c][k] * b[k]
		}
		b[c] /= a[c][c]
	}
	return b
}

// ols solves the normal equations for the listed columns
func ols(X *mat.Dense, y []float64, cols []int) ([]float64, float64) {
	n, _ := X.Dims()
	k := len(cols)
	a := make([][]float64, k)
	b := make([]float64, k)
	for i := range a {
		a[i] = make([]float64, k)
		for j := range a[i] {
			for r := 0; r < n; r++ {
				a[i][j] += X.At(r, cols[i]) * X.At(r, cols[j])
			}
		}
		for r := 0; r < n; r++ {
			b[i] += X.At(r, cols[i]) * y[r]
		}
	}
	beta := solve(a, b)
	rss := 0.0
	for r := 0; r < n; r++ {
		e := y[r]
		for j, c := range cols {
			e -= X.At(r, c) * beta[j]
		}
		rss += e * e
	}
	return beta, rss
}

// refAicc is the criterion as documented
func refAicc(k, n int, rss float64) float64 {
	d := float64(n - k - 1)
	if k >= n-1 {
		d = 1
	}
	return 2*float64(k) + float64(n)*math.Log(math.Max(rss, 1e-12)) + float64(2*k*k+2*k)/d
}

// bestAicc is the minimum over all models with fewer features than rows
func bestAicc(X *mat.Dense, y []float64) float64 {
	n, p := X.Dims()
	best := math.Inf(1)
	for m := 1; m < 1<<uint(p); m++ {
		cols := []int{}
		for j := 0; j < p; j++ {
			if m>>uint(j)&1 == 1 {
				cols = append(cols, j)
			}
		}
		if len(cols) >= n {
			continue
		}
		_, rss := ols(X, y, cols)
		if v := refAicc(len(cols), n, rss); v < best {
			best = v
		}
	}
	return best
}

// normalized returns normalised copies
func normalized(X *mat.Dense, y []float64) (*fs.NormalizedData, []float64) {
	yc := append([]float64{}, y...)
	return fs.NewNormalizedData(mat.DenseCopyOf(X), yc), yc
}

// kktGap is the largest violation of the conditions of 1/2|y-Xb|^2 + lamb|b|_1
func kktGap(X *mat.Dense, y []float64, lamb float64, sel []int, coeff []float64) float64 {
	n, p := X.Dims()
	b := make([]float64, p)
	for i, s := range sel {
		b[s] = coeff[i]
	}
	gap := 0.0
	for j := 0; j < p; j++ {
		g := 0.0
		for r := 0; r < n; r++ {
			e := y[r]
			for k := 0; k < p; k++ {
				e -= X.At(r, k) * b[k]
			}
			g += X.At(r, j) * e
		}
		v := math.Abs(g) - lamb
		if b[j] != 0 {
			v = math.Max(math.Abs(v), -g*b[j])
		}
		gap = math.Max(gap, v)
	}
	return gap
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
