package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// wideTypes are the field types of structs with many fields.
var wideTypes = []reflect.Type{tof(0), tof(""), tof(false), tof([]string{}), tof(1.5), tof([]int{}), tof((*int)(nil)), tof(uint16(0)), tof(Duration(0)), tof([]bool{})}

// wideStruct has n fields of cycling types and tags.
func wideStruct(n int) reflect.Type {
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		tag := ""
		switch i % 7 {
		case 2:
			tag = num(`ini:"key %d" comment:"c"`, i)
		case 4:
			tag = `ini:",omitempty" delim:";"`
		case 6:
			tag = `ini:",,allowshadow"`
		}
		fs = append(fs, reflect.StructField{Name: num("F%d", i), Type: wideTypes[i%len(wideTypes)], Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(fs)
}

// deepStruct nests n structs, each with a number and a section of its own.
func deepStruct(n int) reflect.Type {
	t := reflect.StructOf([]reflect.StructField{{Name: "N", Type: tof(0)}})
	for i := n - 1; i >= 0; i-- {
		t = reflect.StructOf([]reflect.StructField{{Name: "N", Type: tof(0)}, {Name: num("Sub%d", i), Type: t}, {Name: "After", Type: tof([]string{})}})
	}
	return t
}

// broadStruct has n sections.
func broadStruct(n int, ptr bool) reflect.Type {
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: tof(0)}, {Name: num("B%d", i), Type: tof("")}})
		if ptr {
			t = reflect.PtrTo(t)
		}
		fs = append(fs, reflect.StructField{Name: num("S%d", i), Type: t})
	}
	return reflect.StructOf(fs)
}

type scaledElem struct {
	A int
	B string
	C []int
}

type scaledSlices struct {
	T  []scaledElem  `ini:",,,nonunique"`
	U  []*scaledElem `ini:",,,nonunique"`
	At int
}

// fillNumbered gives every field of a value its own text, all representable.
func fillNumbered(v reflect.Value, c *int, n int) {
	*c++
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fillNumbered(v.Elem(), c, n)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillNumbered(v.Field(i), c, n)
		}
	case reflect.Slice:
		k := *c % 4
		if v.Type().Elem().Kind() == reflect.Struct || v.Type().Elem().Kind() == reflect.Ptr {
			k = n
		}
		v.Set(reflect.MakeSlice(v.Type(), k, k))
		for i := 0; i < k; i++ {
			fillNumbered(v.Index(i), c, n)
		}
	case reflect.String:
		v.SetString(num("t%d", *c))
	case reflect.Bool:
		v.SetBool(*c%2 == 0)
	case reflect.Float64:
		v.SetFloat(float64(*c) + 0.5)
	case reflect.Uint16:
		v.SetUint(uint64(*c % 65536))
	default:
		v.SetInt(int64(*c))
	}
}

// scaledValues are the values of many fields, sections, elements or levels.
type scaledValue struct {
	name  string
	sizes []int
	make  func(n int) reflect.Value
}

func filled(t reflect.Type, n int) reflect.Value {
	v := reflect.New(t)
	c := 0
	fillNumbered(v.Elem(), &c, n)
	return v
}

func longList(t reflect.Type) func(n int) reflect.Value {
	return func(n int) reflect.Value {
		v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Before", Type: tof(0)}, {Name: "L", Type: t}, {Name: "S", Type: t, Tag: `ini:",,allowshadow"`}, {Name: "D", Type: t, Tag: `delim:"||"`}, {Name: "After", Type: tof("")}}))
		for f := 1; f <= 3; f++ {
			l := reflect.MakeSlice(t, n, n)
			c := 10 * f
			for i := 0; i < n; i++ {
				fillNumbered(l.Index(i), &c, 0)
			}
			v.Elem().Field(f).Set(l)
		}
		v.Elem().Field(4).SetString("end")
		return v
	}
}

var scaledValues = func() []scaledValue {
	out := []scaledValue{
		{"wide", upTo(sizesFull, 130), func(n int) reflect.Value { return filled(wideStruct(n), n) }},
		{"deep", upTo(sizesFull, 66), func(n int) reflect.Value { return filled(deepStruct(n), n) }},
		{"broad", upTo(sizesFull, 101), func(n int) reflect.Value { return filled(broadStruct(n, false), n) }},
		{"broad-pointers", upTo(sizesFull, 101), func(n int) reflect.Value { return filled(broadStruct(n, true), n) }},
		{"slices", upTo(sizesFull, 130), func(n int) reflect.Value { return filled(tof(scaledSlices{}), n) }},
		{"long-text", sizesLong, func(n int) reflect.Value {
			s := reps(n)
			return reflect.ValueOf(&struct {
				A string
				B string `ini:",omitempty" comment:"x"`
				C []string
				D *string
			}{s, s + "\n" + s + "#", []string{"a" + s, "b", s + "c"}, &s})
		}},
	}
	for _, t := range []reflect.Type{tof([]string{}), tof([]int{}), tof([]float64{}), tof([]uint16{}), tof([]bool{})} {
		if t == tof([]uint16{}) {
			continue
		}
		out = append(out, scaledValue{"list of " + t.Elem().String(), upTo(sizesFull, 520), longList(t)})
	}
	return out
}()

// scaledReflect reflects every value, compares with the oracle, and maps it back.
func scaledReflect() core.Space {
	type pt struct {
		s *scaledValue
		n int
	}
	var pts []pt
	for i := range scaledValues {
		for _, n := range scaledValues[i].sizes {
			pts = append(pts, pt{&scaledValues[i], n})
		}
	}
	bs := []before{befores[0], befores[1], {"shadows", []opt{oShadow}, "a=1\n"}, {"shadows and duplicates", []opt{oShadow, oDup}, "a=1\n"}, {"non-unique", []opt{oNonUniq}, "[z]\nq=1\n"}}
	radix := []int{len(pts), len(bs), 2}
	return core.Space{
		Name: "scaled", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d values of many fields, sections, levels or elements x %d files x default or own section", len(pts), len(bs)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				p, b, sec := pts[m[0]], &bs[m[1]], []string{"", "s"}[m[2]]
				in := func() string {
					return fmt.Sprintf("reflect %s(%d) into section %q of %q (%s)", p.s.name, p.n, sec, b.text, b.name)
				}
				back := true
				switch {
				case p.s.name == "slices":
					back = strings.Contains(b.name, "non-unique") && sec == ""
				case strings.HasPrefix(p.s.name, "list of bool"):
					back = b.name != "shadows" // duplicates are dropped
				}
				var fl *core.Fail
				core.Guard(in, func() { fl = reflectCase(w, b, p.s.make(p.n), sec, nil, back) })
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// scaledMap maps documents with the content of every value (written by the
// model's reflection) and with gaps to fresh values, strictly or not.
func scaledMap() core.Space {
	type pt struct {
		s *scaledValue
		n int
	}
	var pts []pt
	for i := range scaledValues {
		for _, n := range scaledValues[i].sizes {
			pts = append(pts, pt{&scaledValues[i], n})
		}
	}
	sets := []optSet{one(), one(oShadow), one(oNonUniq)}
	radix := []int{len(pts), len(sets), 2, 2, 5}
	return core.Space{
		Name: "scaled", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d targets of many fields, sections, levels or elements x %d option sets x held values x strict x complete or damaged documents", len(pts), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				p, o, held, strict, gap := pts[m[0]], &sets[m[1]], m[2] == 1, m[3] == 1, m[4]
				in := func() string {
					return fmt.Sprintf("map %s(%d) with %s held=%v strict=%v damage=%d", p.s.name, p.n, o.name, held, strict, gap)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					v := p.s.make(p.n)
					md := ref.New(o.o)
					_ = md.Parse("")
					r := &ref.Reflecting{D: md, Peek: func(*ref.Sec, string) []string { return nil }}
					r.Top(md.Section(""), v)
					if r.Fails || r.Odd {
						return
					}
					f := ini.Empty(o.o)
					d := ref.New(o.o)
					_ = d.Parse("")
					nkey := 0
					for si, s := range md.Secs {
						if gap == 1 && si > 0 && si == len(md.Secs)/2 {
							continue // a missing section
						}
						ls, _ := f.NewSection(s.Name)
						ms, _ := d.NewSection(s.Name)
						for _, k := range s.Keys {
							nkey++
							val := k.Value
							switch {
							case gap == 2 && nkey%5 == 3:
								continue // missing keys
							case gap == 3 && nkey%7 == 4:
								val = "damaged" + val
							case gap == 4 && nkey == p.n:
								val = ""
							}
							_, _ = ls.NewKey(k.Name, val)
							_, _ = ms.NewKey(k.Name, val)
							for _, sh := range k.Shadows {
								_ = ls.Key(k.Name).AddShadow(sh)
								_ = ms.Key(k.Name).AddShadow(sh)
							}
						}
					}
					fl = mapCase(w, f, d, v.Type().Elem(), "", held, strict, false)
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}
