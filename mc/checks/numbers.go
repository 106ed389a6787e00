package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"

	"github.com/go-ini/ini"

	"inimc/core"
)

// numberTexts is a contiguous range of small numbers, the neighbourhood of every
// power of two and of ten up to past 64 bits, and fractions and powers.
var numberTexts = func() []string {
	seen := map[string]bool{}
	var l []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	for i := -300; i <= 300; i++ {
		add(strconv.Itoa(i))
	}
	for _, b := range []int64{2, 10} {
		p := big.NewInt(1)
		for p.BitLen() <= 66 {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(p, big.NewInt(d))
				add(x.String())
				add(new(big.Int).Neg(x).String())
			}
			p.Mul(p, big.NewInt(b))
		}
	}
	for i := -50; i <= 50; i++ {
		add(strconv.FormatFloat(float64(i)/10, 'f', -1, 64))
		add(strconv.FormatFloat(float64(i)/8, 'f', -1, 64))
		add(fmt.Sprintf("1e%d", i))
		add(fmt.Sprintf("-2.5e%d", i*7))
	}
	return l
}()

// numberLists reads every number as the only, first and last element of a list.
func numberLists() core.Space {
	forms := []string{"§", "§,7", "x,§", "7 , § ,x", "§,§"}
	return core.Space{
		Name: "number-lists", N: uint64(len(numberTexts) * len(forms)), Note: fmt.Sprintf("every list accessor on %d numbers in %d lists", len(numberTexts), len(forms)),
		New: func(w *core.W) func(uint64) *core.Fail {
			k, _ := ini.Empty().Section("s").NewKey("k", "")
			return func(i uint64) *core.Fail {
				t := numberTexts[int(i)/len(forms)]
				var elems []string
				switch i % uint64(len(forms)) {
				case 0:
					elems = []string{t}
				case 1:
					elems = []string{t, "7"}
				case 2:
					elems = []string{"x", t}
				case 3:
					elems = []string{"7", t, "x"}
				case 4:
					elems = []string{t, t}
				}
				text := fillDict(forms[i%uint64(len(forms))], t, "")
				k.SetValue(text)
				w.State([]byte(text))
				return checkLists(w, k, elems, ",", func() string { return fmt.Sprintf("lists of %q by \",\"", text) })
			}
		},
	}
}

type numberFields struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	F64 float64
	PI  *int32
	PU  *uint64
	PF  *float64
	LI  []int
	LJ  []int64
	LU  []uint64
	LF  []float64
}

var numberNames = func() (l []string) {
	t := reflect.TypeOf(numberFields{})
	for i := 0; i < t.NumField(); i++ {
		l = append(l, t.Field(i).Name)
	}
	return l
}()

// numberOf is the value a text denotes for a type, if it denotes one.
func numberOf(t reflect.Type, s string) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		e, ok := numberOf(t.Elem(), s)
		if ok {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(e)
		}
		return v, ok
	case reflect.Slice:
		e, ok := numberOf(t.Elem(), s)
		v.Set(reflect.Append(v, e, e))
		return v, ok
	case reflect.Float32, reflect.Float64:
		// parsed in double precision, then narrowed
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || v.OverflowFloat(f) {
			return v, false
		}
		v.SetFloat(f)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := new(big.Int).SetString(s, 10)
		if !ok || !n.IsInt64() || v.OverflowInt(n.Int64()) {
			return v, false
		}
		v.SetInt(n.Int64())
	default:
		n, ok := new(big.Int).SetString(s, 10)
		if !ok || !n.IsUint64() || v.OverflowUint(n.Uint64()) {
			return v, false
		}
		v.SetUint(n.Uint64())
	}
	return v, true
}

// numberMaps maps every number to every numeric field kind.
func numberMaps() core.Space {
	return core.Space{
		Name: "numbers", N: uint64(len(numberTexts) * len(numberNames) * 2), Note: fmt.Sprintf("%d numbers x %d field kinds x strict", len(numberTexts), len(numberNames)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				strict := i%2 == 1
				t, name := numberTexts[int(i)/2/len(numberNames)], numberNames[int(i)/2%len(numberNames)]
				in := func() string { return fmt.Sprintf("map %s=%q strict=%v", name, t, strict) }
				var fl *core.Fail
				core.Guard(in, func() {
					var x numberFields
					f := reflect.ValueOf(&x).Elem().FieldByName(name)
					list := f.Kind() == reflect.Slice
					text := t
					if list {
						text = t + "," + t
					}
					file, err := ini.Load([]byte(name + "=" + text + "\n"))
					if err != nil {
						fl = &core.Fail{Want: "loads", Got: err.Error()}
						return
					}
					if strict {
						err = file.StrictMapTo(&x)
					} else {
						err = file.MapTo(&x)
					}
					w.Step(1)
					w.Trace()
					w.State([]byte(in()))
					want, ok := numberOf(f.Type(), t)
					switch {
					case list && !ok:
						// element accessors decide what stands for an invalid element
						if f.Len() != 2 {
							fl = &core.Fail{Want: "two elements", Got: fmt.Sprint(f.Interface())}
						}
					case !ok && (strict != (err != nil) || !f.IsZero()):
						fl = &core.Fail{Want: fmt.Sprintf("no value, error only if strict"), Got: fmt.Sprintf("%v, %v", f.Interface(), err)}
					case ok && (err != nil || !reflect.DeepEqual(f.Interface(), want.Interface())):
						fl = &core.Fail{Want: fmt.Sprintf("%v", showNumber(want)), Got: fmt.Sprintf("%v, %v", showNumber(f), err)}
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

func showNumber(v reflect.Value) interface{} {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return fmt.Sprint("&", v.Elem().Interface())
	}
	return v.Interface()
}

// numberReflects reflects every number held by every numeric field kind and maps it back.
func numberReflects() core.Space {
	return core.Space{
		Name: "numbers", N: uint64(len(numberTexts) * len(numberNames)), Note: fmt.Sprintf("%d numbers x %d field kinds, reflected and mapped back", len(numberTexts), len(numberNames)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				t, name := numberTexts[int(i)/len(numberNames)], numberNames[int(i)%len(numberNames)]
				in := func() string { return fmt.Sprintf("reflect %s=%s", name, t) }
				var fl *core.Fail
				core.Guard(in, func() {
					var x, y numberFields
					f := reflect.ValueOf(&x).Elem().FieldByName(name)
					v, ok := numberOf(f.Type(), t)
					if !ok {
						return
					}
					f.Set(v)
					file := ini.Empty()
					if err := ini.ReflectFrom(file, &x); err != nil {
						fl = &core.Fail{Want: "no error", Got: err.Error()}
						return
					}
					text := file.Section("").Key(name).Value()
					w.Step(2)
					w.Trace()
					w.State([]byte(in()))
					if err := file.StrictMapTo(&y); err != nil && text != "" {
						// the other pointers are nil and their keys empty, which strict mapping refuses
						err = file.MapTo(&y)
						if err != nil {
							fl = &core.Fail{Want: "maps back", Got: err.Error()}
							return
						}
					}
					g := reflect.ValueOf(&y).Elem().FieldByName(name)
					if !reflect.DeepEqual(f.Interface(), g.Interface()) {
						fl = &core.Fail{Want: fmt.Sprintf("%v back from %q", showNumber(f), text), Got: fmt.Sprint(showNumber(g))}
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}
