package kit

import (
	"container/list"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"gonum.org/v1/gonum/mat"
)

// Deep renders everything a user can see of a value: exported fields,
// elements, matrix entries, list contents. Floats are exact.
func Deep(vs ...any) string {
	var b strings.Builder
	for _, v := range vs {
		deep(&b, reflect.ValueOf(v), 0)
		b.WriteString(";")
	}
	return b.String()
}

var matrixType = reflect.TypeOf((*mat.Matrix)(nil)).Elem()

func deep(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() && v.Type().Implements(matrixType) && !((v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil()) {
		m := v.Interface().(mat.Matrix)
		nr, nc := m.Dims()
		fmt.Fprintf(b, "m%dx%d[", nr, nc)
		for i := 0; i < nr; i++ {
			for j := 0; j < nc; j++ {
				b.WriteString(strconv.FormatFloat(m.At(i, j), 'g', -1, 64))
				b.WriteByte(' ')
			}
		}
		b.WriteByte(']')
		return
	}
	if v.CanInterface() {
		if l, ok := v.Interface().(*list.List); ok && l != nil {
			b.WriteString("list[")
			for e := l.Front(); e != nil; e = e.Next() {
				deep(b, reflect.ValueOf(e.Value), depth+1)
				b.WriteByte(' ')
			}
			b.WriteByte(']')
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		deep(b, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			deep(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var rows []string
		for _, k := range v.MapKeys() {
			var r strings.Builder
			deep(&r, k, depth+1)
			r.WriteByte(':')
			deep(&r, v.MapIndex(k), depth+1)
			rows = append(rows, r.String())
		}
		sort.Strings(rows)
		b.WriteString("map{" + strings.Join(rows, " ") + "}")
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + "=")
			deep(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Float64, reflect.Float32:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Kind().String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		b.WriteString(v.String())
	}
}
