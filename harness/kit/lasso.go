package kit

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// NormRef returns independently normalised copies of the columns and of y,
// with the first column zero when it is constant.
func NormRef(A Cols, y []float64) (Cols, []float64, bool) {
	B := make(Cols, len(A))
	bias := false
	for j := range A {
		B[j] = make([]float64, len(A[j]))
		mu, sd := MeanRef(A[j]), StdRef(A[j])
		if sd < 1e-10 {
			sd = 1
			bias = bias || j == 0
		}
		for i := range B[j] {
			B[j][i] = (A[j][i] - mu) / sd
		}
	}
	z := make([]float64, len(y))
	mu, sd := MeanRef(y), StdRef(y)
	for i := range z {
		z[i] = (y[i] - mu) / sd
	}
	return B, z, bias
}

// FullVec expands a sparse coefficient set; an error when it is malformed.
func FullVec(p int, sel []int, coeff []float64) ([]float64, error) {
	if len(sel) != len(coeff) {
		return nil, fmt.Errorf("%d features but %d coefficients", len(sel), len(coeff))
	}
	b := make([]float64, p)
	seen := make([]bool, p)
	for k, j := range sel {
		if j < 0 || j >= p || seen[j] {
			return nil, fmt.Errorf("selection %v is not a list of distinct features of %d", sel, p)
		}
		seen[j] = true
		b[j] = coeff[k]
	}
	if !Finite(b...) {
		return nil, fmt.Errorf("coefficients %v", coeff)
	}
	return b, nil
}

// KKT returns by how much b violates the optimality conditions of
// min 1/2 |y-Xb|^2 + lambda |b|_1 + mu/2 |b|^2 and where.
func KKT(A Cols, y, b []float64, lambda, mu float64) (float64, int) {
	r := append([]float64{}, y...)
	for j := range A {
		if b[j] != 0 {
			for i := range r {
				r[i] -= A[j][i] * b[j]
			}
		}
	}
	worst, arg := 0.0, -1
	for j := range A {
		g := Dot(A[j], r) - mu*b[j]
		var v float64
		switch {
		case b[j] > 0:
			v = math.Abs(g - lambda)
		case b[j] < 0:
			v = math.Abs(g + lambda)
		default:
			v = math.Abs(g) - lambda
		}
		if math.IsNaN(v) {
			return math.Inf(1), j
		}
		if v > worst {
			worst, arg = v, j
		}
	}
	return worst, arg
}

// KKTLoose treats coefficients of magnitude below eps as either zero or
// active (a feature that is just entering or leaving).
func KKTLoose(A Cols, y, b []float64, lambda, eps float64) (float64, int) {
	r := append([]float64{}, y...)
	for j := range A {
		for i := range r {
			r[i] -= A[j][i] * b[j]
		}
	}
	worst, arg := 0.0, -1
	for j := range A {
		g := Dot(A[j], r)
		var v float64
		switch {
		case b[j] > eps:
			v = math.Abs(g - lambda)
		case b[j] < -eps:
			v = math.Abs(g + lambda)
		default:
			v = math.Abs(g) - lambda
		}
		if math.IsNaN(v) {
			return math.Inf(1), j
		}
		if v > worst {
			worst, arg = v, j
		}
	}
	return worst, arg
}

// GenGeneral draws continuous data in general position: no ties between
// features, optional constant first column.
func GenGeneral(t *rapid.T, minN, maxN, minP, maxP, shape int, bias int) Prob {
	return GenProb(t, ProbOpts{MinN: minN, MaxN: maxN, MinP: minP, MaxP: maxP, BigN: 100, BigP: 20, Shape: shape, Bias: bias, Masked: true,
		Kinds: []string{"gauss", "gauss", "corr", "poly"}})
}

// RefNode is one knot of the reference LASSO path.
type RefNode struct {
	Lamb float64
	Sel  []int // active features below this knot, ascending
	B    []float64
}

// RefPath is an independent homotopy solver of min 1/2|z-Bb|^2 + l|b|_1. It
// returns the knots with lambda > lmin, the smallest gap (above floor) between competing or
// successive events (relative to nothing: absolute) and the smallest singular
// value of a visited active set. ok is false when the path is degenerate.
func RefPath(B Cols, z []float64, lmin, floor float64) (path []RefNode, gap, smin float64, ok bool) {
	p := len(B)
	gap, smin = math.Inf(1), math.Inf(1)
	lamb, first := 0.0, -1
	for j := range B {
		if v := math.Abs(Dot(B[j], z)); v > lamb {
			lamb, first = v, j
		}
	}
	if first < 0 {
		return nil, 0, 0, false
	}
	for j := range B {
		if j != first {
			gap = math.Min(gap, lamb-math.Abs(Dot(B[j], z)))
		}
	}
	sign := make([]float64, p)
	sign[first] = math.Copysign(1, Dot(B[first], z))
	left := -1 // the feature that left at the current knot
	for step := 0; step < 20*p+20; step++ {
		var sel []int
		for j := range sign {
			if sign[j] != 0 {
				sel = append(sel, j)
			}
		}
		if len(sel) == 0 || lamb <= lmin {
			return path, gap, smin, len(sel) > 0
		}
		sub := B.Pick(sel)
		if len(sel) > len(z) {
			return path, gap, smin, false
		}
		sv := SingularValues(sub)
		s := sv[len(sv)-1]
		smin = math.Min(smin, s)
		if s < 1e-6 {
			return path, gap, smin, false
		}
		P := PInv(sub, 1e-12)
		c, d := make([]float64, len(sel)), make([]float64, len(sel))
		for k := range sel {
			c[k] = Dot(P[k], z)
			for q := range sel {
				d[k] += Dot(P[k], P[q]) * sign[sel[q]]
			}
		}
		at := func(l float64) []float64 {
			b := make([]float64, p)
			for k, j := range sel {
				b[j] = c[k] - l*d[k]
			}
			return b
		}
		path = append(path, RefNode{lamb, sel, at(lamb)})
		// residual r(l) = r0 + l*r1
		r0, r1 := append([]float64{}, z...), make([]float64, len(z))
		for k, j := range sel {
			for i := range z {
				r0[i] -= B[j][i] * c[k]
				r1[i] += B[j][i] * d[k]
			}
		}
		best, second, ev, evSign := 0.0, 0.0, -1, 0.0
		put := func(l float64, j int, sg float64) {
			if !(l > 0) || l >= lamb {
				return
			}
			if l > best {
				best, second, ev, evSign = l, best, j, sg
			} else if l > second {
				second = l
			}
		}
		for k, j := range sel {
			// crosses zero at c/d, when it is not the feature that joined here
			l := c[k] / d[k]
			if math.Abs(l-lamb) < 1e-9*lamb {
				continue
			}
			put(l, j, 0)
		}
		for j := range B {
			if sign[j] != 0 {
				continue
			}
			a, b := Dot(B[j], r0), Dot(B[j], r1)
			// a + l b = +-l
			for _, sg := range []float64{1, -1} {
				l := a / (sg - b)
				if j == left && math.Abs(l-lamb) < 1e-7*(1+lamb) {
					continue
				}
				put(l, j, sg)
			}
		}
		if ev < 0 {
			return path, gap, smin, true
		}
		if best > floor {
			gap = math.Min(gap, math.Min(lamb-best, best-second))
		}
		left = -1
		if evSign == 0 {
			left = ev
		}
		sign[ev] = evSign
		lamb = best
	}
	return path, gap, smin, false
}
