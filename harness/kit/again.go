package kit

import (
	"reflect"
	"sync"

	"gonum.org/v1/gonum/mat"
)

// store hands out the same matrices and slices for two related cases, so that
// the second case consists of the memory of the first one with other values.
type store struct {
	sync.Mutex
	second bool
	ms     []*mat.Dense
	ys     [][]float64
	im, iy int
}

var memory *store

func keepDense(m *mat.Dense) *mat.Dense {
	s := memory
	if s == nil || m.IsEmpty() {
		return m
	}
	s.Lock()
	defer s.Unlock()
	if !s.second {
		s.ms = append(s.ms, m)
		return m
	}
	s.im++
	if s.im > len(s.ms) {
		return m
	}
	old := s.ms[s.im-1]
	r, c := m.Dims()
	if ro, co := old.Dims(); ro != r || co != c || !GuardOK(old) {
		return m
	}
	old.Copy(m)
	return old
}

func keepSlice(y []float64) []float64 {
	s := memory
	if s == nil || len(y) == 0 {
		return y
	}
	s.Lock()
	defer s.Unlock()
	if !s.second {
		s.ys = append(s.ys, y)
		return y
	}
	s.iy++
	if s.iy > len(s.ys) || len(s.ys[s.iy-1]) != len(y) {
		return y
	}
	copy(s.ys[s.iy-1], y)
	return s.ys[s.iy-1]
}

// related returns the case with the rows of X moved by one, the target
// reversed, or both. Sums and norms stay the same.
func related[T any](c T) (T, bool) {
	v := reflect.ValueOf(&c).Elem()
	if p := v.FieldByName("Prob"); p.IsValid() && p.Type() == reflect.TypeOf(Prob{}) {
		v = p
	}
	n := v.FieldByName("N")
	x, y := v.FieldByName("X"), v.FieldByName("Y")
	if !n.IsValid() || !x.IsValid() || x.Type() != reflect.TypeOf([]float64{}) {
		return c, false
	}
	rows := int(n.Int())
	if rows < 2 || x.Len() < rows || x.Len()%rows != 0 {
		return c, false
	}
	w := x.Len() / rows
	kind := (rows + w) % 3
	if kind != 1 || !y.IsValid() {
		old := x.Interface().([]float64)
		x.Set(reflect.ValueOf(append(append([]float64{}, old[w:]...), old[:w]...)))
	}
	if kind != 2 && y.IsValid() && y.Type() == x.Type() {
		old := y.Interface().([]float64)
		q := make([]float64, len(old))
		for i := range q {
			q[i] = old[len(q)-1-i]
		}
		y.Set(reflect.ValueOf(q))
	}
	return c, true
}

// Again makes a run function that first runs a related case in the same
// memory: a result that is remembered for a matrix or slice is out of date when
// the case itself runs. Nothing is claimed about the related case.
func Again[T any](run func(T, *Obs) error) func(T, *Obs) error {
	return func(c T, o *Obs) error {
		d, ok := related(c)
		if !ok {
			return ErrSkip
		}
		memory = &store{}
		defer func() { memory = nil }()
		func() {
			defer func() { _ = recover() }()
			_ = run(d, &Obs{})
		}()
		memory.second = true
		return run(c, o)
	}
}
