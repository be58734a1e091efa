package kit

import (
	"math"
	"sort"
)

// Reference linear algebra, written independently of gonum: small, slow and
// plain. Matrices are column slices: A[j][i] is row i of column j.

// Cols is a matrix stored by columns.
type Cols [][]float64

// Dot is the inner product.
func Dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// Norm is the euclidean norm.
func Norm(a []float64) float64 { return math.Sqrt(Dot(a, a)) }

// SVD computes a thin singular value decomposition by one-sided Jacobi:
// A = U diag(s) V^T with A n x p, U columns n, V columns p. Works for any shape;
// it returns p singular values (zeros included), unsorted columns matched.
func SVD(A Cols) (U Cols, s []float64, V Cols) {
	p := len(A)
	n := 0
	if p > 0 {
		n = len(A[0])
	}
	U = make(Cols, p)
	V = make(Cols, p)
	for j := range A {
		U[j] = append([]float64{}, A[j]...)
		V[j] = make([]float64, p)
		V[j][j] = 1
	}
	for sweep := 0; sweep < 60; sweep++ {
		rot := false
		for a := 0; a < p; a++ {
			for b := a + 1; b < p; b++ {
				al, be, ga := Dot(U[a], U[a]), Dot(U[b], U[b]), Dot(U[a], U[b])
				if ga == 0 || math.Abs(ga) <= 1e-15*math.Sqrt(al*be) {
					continue
				}
				rot = true
				zeta := (be - al) / (2 * ga)
				t := 1 / (math.Abs(zeta) + math.Sqrt(1+zeta*zeta))
				if zeta < 0 {
					t = -t
				}
				c := 1 / math.Sqrt(1+t*t)
				sn := c * t
				for i := 0; i < n; i++ {
					x, y := U[a][i], U[b][i]
					U[a][i], U[b][i] = c*x-sn*y, sn*x+c*y
				}
				for i := 0; i < p; i++ {
					x, y := V[a][i], V[b][i]
					V[a][i], V[b][i] = c*x-sn*y, sn*x+c*y
				}
			}
		}
		if !rot {
			break
		}
	}
	s = make([]float64, p)
	for j := range U {
		s[j] = Norm(U[j])
		if s[j] > 0 {
			for i := range U[j] {
				U[j][i] /= s[j]
			}
		}
	}
	return
}

// SingularValues returns the singular values in descending order.
func SingularValues(A Cols) []float64 {
	_, s, _ := SVD(A)
	s = append([]float64{}, s...)
	sort.Sort(sort.Reverse(sort.Float64Slice(s)))
	return s
}

// LeastSquares returns the minimum-norm least-squares solution of A b = y,
// treating singular values <= cut as zero.
func LeastSquares(A Cols, y []float64, cut float64) []float64 {
	U, s, V := SVD(A)
	b := make([]float64, len(A))
	for j := range s {
		if s[j] <= cut {
			continue
		}
		w := Dot(U[j], y) / s[j]
		for i := range b {
			b[i] += w * V[j][i]
		}
	}
	return b
}

// PInv returns the pseudo-inverse as rows: P[i][r], p x n.
func PInv(A Cols, cut float64) [][]float64 {
	U, s, V := SVD(A)
	p := len(A)
	n := len(A[0])
	P := make([][]float64, p)
	for i := range P {
		P[i] = make([]float64, n)
	}
	for k := range s {
		if s[k] <= cut {
			continue
		}
		for i := 0; i < p; i++ {
			for r := 0; r < n; r++ {
				P[i][r] += V[k][i] * U[k][r] / s[k]
			}
		}
	}
	return P
}

// PredictRef returns A b.
func PredictRef(A Cols, b []float64) []float64 {
	if len(A) == 0 {
		return nil
	}
	r := make([]float64, len(A[0]))
	for j := range A {
		for i := range r {
			r[i] += A[j][i] * b[j]
		}
	}
	return r
}

// RssRef returns the residual sum of squares.
func RssRef(A Cols, b, y []float64) float64 {
	p := PredictRef(A, b)
	s := 0.0
	for i := range y {
		d := y[i]
		if p != nil {
			d -= p[i]
		}
		s += d * d
	}
	return s
}

// Pick selects columns.
func (A Cols) Pick(idx []int) Cols {
	r := make(Cols, len(idx))
	for i, j := range idx {
		r[i] = A[j]
	}
	return r
}

// AicRef, AiccRef and BicRef are the information criteria for Gaussian errors
// as documented: n log RSS + penalty.
func AicRef(k, n int, rss float64) float64 { return 2*float64(k) + float64(n)*math.Log(rss) }

// AiccRef is the corrected AIC; at the singular end (k >= n-1) the code's
// denominator is one.
func AiccRef(k, n int, rss float64) float64 {
	d := float64(n - k - 1)
	if k >= n-1 {
		d = 1
	}
	return AicRef(k, n, rss) + float64(2*k*k+2*k)/d
}

// BicRef is the Bayesian information criterion.
func BicRef(k, n int, rss float64) float64 {
	return float64(k)*math.Log(float64(n)) + float64(n)*math.Log(rss)
}

// Close compares with absolute plus relative tolerance.
func Close(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// CloseScale compares with an explicit scale.
func CloseScale(a, b, tol, scale float64) bool {
	return math.Abs(a-b) <= tol*scale
}

// MeanRef and StdRef (sample standard deviation), compensated.
func MeanRef(v []float64) float64 {
	s, c := 0.0, 0.0
	for _, x := range v {
		y := x - c
		t := s + y
		c = (t - s) - y
		s = t
	}
	return s / float64(len(v))
}

// StdRef is the sample standard deviation.
func StdRef(v []float64) float64 {
	if len(v) < 2 {
		return 0
	}
	m := MeanRef(v)
	s := 0.0
	for _, x := range v {
		s += (x - m) * (x - m)
	}
	return math.Sqrt(s / float64(len(v)-1))
}

// MaxAbs returns the largest magnitude.
func MaxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		if a := math.Abs(x); a > m {
			m = a
		}
	}
	return m
}

// Finite reports whether all values are finite.
func Finite(v ...float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}
