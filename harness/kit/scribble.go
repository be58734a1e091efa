package kit

import (
	"container/list"
	"reflect"

	"gonum.org/v1/gonum/mat"
)

// Scribble changes everything that a user can change in a value: elements,
// exported fields, matrix entries, contents of lists, and the spare memory behind
// slices (as an append would).
func Scribble(vs ...any) {
	for _, v := range vs {
		scribble(reflect.ValueOf(v), 0)
	}
}

func scribble(v reflect.Value, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	if v.CanInterface() {
		switch m := v.Interface().(type) {
		case *mat.Dense:
			if m != nil {
				nr, nc := m.Dims()
				for i := 0; i < nr; i++ {
					for j := 0; j < nc; j++ {
						m.Set(i, j, 7e77)
					}
				}
			}
			return
		case *mat.VecDense:
			if m != nil {
				for i := 0; i < m.Len(); i++ {
					m.SetVec(i, 7e77)
				}
			}
			return
		case *mat.DiagDense:
			if m != nil {
				n, _ := m.Dims()
				for i := 0; i < n; i++ {
					m.SetDiag(i, 7e77)
				}
			}
			return
		case *list.List:
			if m != nil {
				for e := m.Front(); e != nil; e = e.Next() {
					scribble(reflect.ValueOf(e.Value), depth+1)
				}
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Slice:
		full := v
		if v.Cap() > v.Len() {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(7e77)
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(1234567)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(0xa5)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	}
}
