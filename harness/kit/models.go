package kit

import (
	"fmt"
	"math"

	"gonum.org/v1/gonum/mat"
)

// RssTol mirrors the documented floor on the residual sum of squares.
const RssTol = 1e-12

// ModelFit is the reference fit of one model.
type ModelFit struct {
	Idx  []int
	Rss  float64
	Aicc float64 // with the documented floor on RSS
}

// AllModels fits every non-empty model of the problem; index = bit mask (bit j
// = feature j). shaky is true when some model's RSS or rank is numerically
// ambiguous, so that scores cannot be compared reliably.
func AllModels(p *Prob) (fits []ModelFit, shaky bool) {
	A := p.Cols()
	fits = make([]ModelFit, 1<<uint(p.P))
	yy := Dot(p.Y, p.Y)
	for m := 1; m < len(fits); m++ {
		var idx []int
		for j := 0; j < p.P; j++ {
			if m>>uint(j)&1 == 1 {
				idx = append(idx, j)
			}
		}
		sub := A.Pick(idx)
		U, s, V := SVD(sub)
		b := make([]float64, len(idx))
		smax, smin := 0.0, math.Inf(1)
		for k := range s {
			smax = math.Max(smax, s[k])
			if s[k] > 1e-6 {
				smin = math.Min(smin, s[k])
			}
			if s[k] > 1e-9 && s[k] < 1e-4 {
				shaky = true
			}
		}
		if smax > 0 && smin < math.Inf(1) && smax/smin > 1e6 {
			shaky = true
		}
		for k := range s {
			if s[k] <= 1e-6 {
				continue
			}
			w := Dot(U[k], p.Y) / s[k]
			for i := range b {
				b[i] += w * V[k][i]
			}
		}
		rss := RssRef(sub, b, p.Y)
		if rss > 1e-14 && rss < 1e-7*yy && len(idx) < p.N {
			shaky = true
		}
		fits[m] = ModelFit{idx, rss, AiccRef(len(idx), p.N, math.Max(rss, RssTol))}
	}
	return
}

// AllModelsFast is AllModels for wide, well-conditioned problems: all subsets by
// elimination in the Gram matrix. ok is false when a pivot is too small for the
// result to be trusted.
func AllModelsFast(p *Prob) (fits []ModelFit, ok bool) {
	A := p.Cols()
	q := p.P + 1
	cols := append(append(Cols{}, A...), p.Y)
	G := make([]float64, q*q)
	for a := range cols {
		for b := range cols {
			G[a*q+b] = Dot(cols[a], cols[b])
		}
	}
	diag := make([]float64, q)
	for a := range diag {
		diag[a] = G[a*q+a]
		if !(diag[a] > 1e-8) {
			return nil, false
		}
	}
	fits = make([]ModelFit, 1<<uint(p.P))
	ok = true
	var idx []int
	bufs := make([][]float64, p.P+1)
	for i := range bufs {
		bufs[i] = make([]float64, q*q)
	}
	var rec func(j, mask int, M []float64)
	rec = func(j, mask int, M []float64) {
		if j == p.P {
			if mask != 0 {
				rss := math.Max(M[q*q-1], 0)
				if rss < 1e-6*diag[q-1] {
					ok = false
				}
				fits[mask] = ModelFit{append([]int{}, idx...), rss, AiccRef(len(idx), p.N, math.Max(rss, RssTol))}
			}
			return
		}
		rec(j+1, mask, M)
		pv := M[j*q+j]
		if !(pv > 1e-4*diag[j]) {
			ok = false
			return
		}
		W := bufs[j]
		for a := j + 1; a < q; a++ {
			f := M[a*q+j] / pv
			for b := j + 1; b < q; b++ {
				W[a*q+b] = M[a*q+b] - f*M[j*q+b]
			}
		}
		idx = append(idx, j)
		rec(j+1, mask|1<<uint(j), W)
		idx = idx[:len(idx)-1]
	}
	rec(0, 0, G)
	return fits, ok
}

// Models chooses the reference by size; shaky as in AllModels.
func Models(p *Prob) ([]ModelFit, bool) {
	if p.P <= 9 {
		return AllModels(p)
	}
	f, ok := AllModelsFast(p)
	return f, !ok
}

// Mask converts a model to a bit mask.
func Mask(m []bool) int {
	r := 0
	for i, b := range m {
		if b {
			r |= 1 << uint(i)
		}
	}
	return r
}

// CheckLS verifies that coeff is a least-squares solution for the selected
// columns by first-order optimality.
func CheckLS(p *Prob, idx []int, coeff []float64) error {
	if len(coeff) != len(idx) {
		return fmt.Errorf("%d coefficients for %d selected features", len(coeff), len(idx))
	}
	if !Finite(coeff...) {
		return fmt.Errorf("non-finite coefficients %v", coeff)
	}
	A := p.Cols().Pick(idx)
	pred := PredictRef(A, coeff)
	res := make([]float64, p.N)
	mag := Norm(p.Y)
	for i := range res {
		res[i] = p.Y[i] - pred[i]
	}
	mag += Norm(pred)
	for j := range A {
		if g := math.Abs(Dot(A[j], res)); !(g <= 1e-7*(Norm(A[j])*mag+1e-12)) {
			return fmt.Errorf("coefficients %v of features %v are not least squares: residual correlates with feature %d (%g)", coeff, idx, idx[j], g)
		}
	}
	return nil
}

// JitterMatrix is a read-only matrix whose element access yields the processor
// in a way that depends only on the position, to vary goroutine schedules.
type JitterMatrix struct {
	mat.Matrix
	Every int
	Yield func()
	n     int
}

// At returns the element.
func (j *JitterMatrix) At(r, c int) float64 {
	if j.Every > 0 && (r*7+c*13)%j.Every == 0 {
		j.Yield()
	}
	return j.Matrix.At(r, c)
}

// T is the transpose.
func (j *JitterMatrix) T() mat.Matrix { return mat.Transpose{Matrix: j} }
