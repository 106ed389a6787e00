package core

import (
	"fmt"
	"reflect"
	"sort"
)

// Deep appends a canonical form of the complete reachable state of v (including
// unexported fields) to b.  Pointers, maps and slice backing arrays are numbered
// in the order of first visit, so two isomorphic object graphs give equal bytes;
// slice capacities are not part of the form.  Functions are only compared to nil.
func Deep(b []byte, v interface{}) []byte {
	d := deeper{b: b, ids: map[uintptr]int{}}
	d.val(reflect.ValueOf(v))
	return d.b
}

type deeper struct {
	b   []byte
	ids map[uintptr]int
}

func (d *deeper) p(format string, a ...interface{}) { d.b = append(d.b, fmt.Sprintf(format, a...)...) }

func (d *deeper) id(p uintptr) (int, bool) {
	if n, ok := d.ids[p]; ok {
		return n, true
	}
	n := len(d.ids) + 1
	d.ids[p] = n
	return n, false
}

func (d *deeper) str(s string) {
	d.p("%d:", len(s))
	d.b = append(d.b, s...)
}

func (d *deeper) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		d.b = append(d.b, '0')
	case reflect.Bool:
		if v.Bool() {
			d.b = append(d.b, 't')
		} else {
			d.b = append(d.b, 'f')
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.p("i%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.p("u%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		d.p("F%v", v.Float())
	case reflect.String:
		d.b = append(d.b, 's')
		d.str(v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.b = append(d.b, 'n')
		} else {
			d.b = append(d.b, 'x')
		}
	case reflect.Interface:
		if v.IsNil() {
			d.b = append(d.b, 'n')
			return
		}
		d.b = append(d.b, 'I')
		d.str(v.Elem().Type().String())
		d.val(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			d.b = append(d.b, 'n')
			return
		}
		n, seen := d.id(v.Pointer())
		d.p("p%d", n)
		if !seen {
			d.val(v.Elem())
		}
	case reflect.Struct:
		d.b = append(d.b, '{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().PkgPath() == "sync" || v.Type().PkgPath() == "sync/atomic" {
				break // lock words are checked separately
			}
			d.val(v.Field(i))
		}
		d.b = append(d.b, '}')
	case reflect.Slice:
		if v.Len() == 0 {
			d.b = append(d.b, '[', ']')
			return
		}
		n, seen := d.id(v.Pointer())
		d.p("a%d[", n)
		if seen {
			d.b = append(d.b, '*')
		}
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
		d.b = append(d.b, ']')
	case reflect.Array:
		d.b = append(d.b, '(')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
		d.b = append(d.b, ')')
	case reflect.Map:
		if v.IsNil() {
			d.b = append(d.b, 'n')
			return
		}
		n, seen := d.id(v.Pointer())
		d.p("m%d", n)
		if seen {
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		d.b = append(d.b, '<')
		for _, k := range keys {
			d.val(k)
			d.b = append(d.b, '=')
			d.val(v.MapIndex(k))
		}
		d.b = append(d.b, '>')
	default:
		d.p("?%s", v.Kind())
	}
}
