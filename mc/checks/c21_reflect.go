package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// Struct reflectors.
type (
	reflVal struct{ N int }
	reflPtr struct{ N int }
	reflStr string
	reflErr struct{}
)

func setBoth(f *ini.File, d *ref.Doc, name string) error {
	if f != nil {
		s, err := f.NewSection("by_" + name[:3])
		if err == nil {
			_, err = s.NewKey("name", name)
		}
		return err
	}
	s, err := d.NewSection("by_" + name[:3])
	if err == nil {
		_, err = s.NewKey("name", name)
	}
	return err
}

func (r reflVal) ReflectINIStruct(f *ini.File) error  { return setBoth(f, nil, fmt.Sprint("val", r.N)) }
func (r reflVal) ReflectModel(d *ref.Doc) error       { return setBoth(nil, d, fmt.Sprint("val", r.N)) }
func (r *reflPtr) ReflectINIStruct(f *ini.File) error { return setBoth(f, nil, fmt.Sprint("ptr", r.N)) }
func (r *reflPtr) ReflectModel(d *ref.Doc) error      { return setBoth(nil, d, fmt.Sprint("ptr", r.N)) }
func (r reflStr) ReflectINIStruct(f *ini.File) error  { return setBoth(f, nil, "str"+string(r)) }
func (r reflStr) ReflectModel(d *ref.Doc) error       { return setBoth(nil, d, "str"+string(r)) }
func (reflErr) ReflectINIStruct(*ini.File) error      { return errors.New("refused") }
func (reflErr) ReflectModel(*ref.Doc) error           { return errors.New("refused") }

var _ = []ini.StructReflector{reflVal{}, &reflPtr{}, reflStr(""), reflErr{}}

// fieldVal is a value of a field; back tells whether it is representable in
// text, so that mapping returns it.
type fieldVal struct {
	v    reflect.Value
	back bool
}

var zone = time.FixedZone("z", 5*3600+1800)

// valuesOf lists the values of a type.
func valuesOf(t reflect.Type) []fieldVal {
	var out []fieldVal
	add := func(x interface{}) { out = append(out, fieldVal{reflect.ValueOf(x).Convert(t), true}) }
	switch k := t.Kind(); {
	case k == reflect.Ptr:
		if t.Elem() == tof("") || t.Elem().Kind() == reflect.String {
			out = append(out, fieldVal{reflect.Zero(t), true})
		} else {
			out = append(out, fieldVal{reflect.Zero(t), t.Elem().Kind() != reflect.Uint8})
		}
		for _, e := range valuesOf(t.Elem()) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e.v)
			out = append(out, fieldVal{p.Convert(t), e.back})
		}
	case k == reflect.Slice:
		es := valuesOf(t.Elem())
		out = append(out, fieldVal{reflect.Zero(t), true}, fieldVal{reflect.MakeSlice(t, 0, 0), true})
		for i := range es {
			for n := 1; n <= 3; n++ {
				s := reflect.MakeSlice(t, 0, n)
				ok := true
				for j := 0; j < n; j++ {
					e := es[(i+j*j)%len(es)]
					ok = ok && e.back && !(t.Elem().Kind() == reflect.String && !plainElem(e.v.String()))
					s = reflect.Append(s, e.v)
				}
				out = append(out, fieldVal{s, ok})
			}
		}
	case k == reflect.String:
		for _, s := range []string{"", "a", "b c", " x ", "#c", "a;b", "k=v", "[s]", "`t`", "l1\nl2", "\"q\"", "'", "a\\", "a\\,b", "true", "5", "ü", "%d", "a`\n", "\"\"\"", "\t", "-", "x,y", "_", "\n", "a\"b"} {
			add(s)
		}
	case k == reflect.Bool:
		add(false)
		add(true)
	case k >= reflect.Int && k <= reflect.Int64:
		for _, n := range []int64{0, 1, -1, 100, math.MaxInt64, math.MinInt64, 1<<(t.Bits()-1) - 1, -1 << (t.Bits() - 1), 3600e9, -90e9, 1500e6} {
			if !reflect.Zero(t).OverflowInt(n) {
				add(n)
			}
		}
	case k >= reflect.Uint && k <= reflect.Uint64:
		for _, n := range []uint64{0, 1, 200, 1<<t.Bits() - 1, 1 << (t.Bits() - 1)} {
			out = append(out, fieldVal{reflect.ValueOf(n).Convert(t), k != reflect.Uint8})
		}
	case k == reflect.Float32, k == reflect.Float64:
		for _, x := range []float64{0, 1, -0.5, 0.1, 1e6, 1e21, 1.5e-9, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), 123456789.125} {
			add(x)
		}
		if k == reflect.Float64 {
			add(math.MaxFloat64)
			add(math.SmallestNonzeroFloat64)
		}
	case k == reflect.Struct && t.ConvertibleTo(tof(time.Time{})):
		add(time.Time{})
		add(time.Date(2016, 2, 29, 10, 20, 30, 0, time.UTC))
		add(time.Date(1969, 12, 31, 23, 59, 59, 0, zone))
		out = append(out, fieldVal{reflect.ValueOf(time.Date(2016, 2, 29, 10, 20, 30, 5, time.UTC)).Convert(t), false})
	case k == reflect.Interface, k == reflect.Chan, k == reflect.Func:
		out = append(out, fieldVal{reflect.Zero(t), false})
	default:
		v := reflect.New(t).Elem()
		out = append(out, fieldVal{v, false})
		if v.Comparable() {
			v = reflect.New(t).Elem()
			ref.Fill(v, 0)
			out = append(out, fieldVal{v, false})
		}
	}
	return out
}

// plainElem tells whether a text can be an element of a list: elements are not
// escaped and are trimmed.
func plainElem(s string) bool {
	return s != "" && strings.TrimSpace(s) == s && !strings.ContainsAny(s, "\\,;|\n")
}

// before is what a file holds before a struct is reflected into it.
type before struct {
	name string
	opts []opt
	text string
}

var befores = []before{
	{"empty", nil, ""},
	{"old key", nil, "; about\nField = old ; inline\nOther = o\n[s]\nField=s-old\nlast=1\n[t]\nField=t\n"},
	{"parent's key", nil, "x=1\n[p]\nField=parent's\nOther=parent's\n[p.s]\ny=2\n"},
	{"shadowed", []opt{oShadow}, "a=1\na=2\nField=1\nField=2\n[s]\nField=3\nField=4\nOther=5\nOther=6\n"},
	{"boolean", []opt{oBool}, "Field\n[s]\nz\nField\n[p.s]\nField\n"},
	{"insensitive", []opt{oInsens}, "FIELD=x\n[S]\nfield=y\n"},
	{"non-unique", []opt{oNonUniq}, "[s]\nField=1\n[t]\nq=1\n[s]\nField=2\n"},
	{"all options", []opt{oBool, oNested, oPython, oRaw, oUnescC, oSpace, oChild}, "Field=\n  nested\nz\n[a]\nraw\n[s]\nother=1\n"},
	{"preserving", []opt{oPreserve, oIgnCont, oIgnInl, oUnescQ}, "Field=\"x\"\n"},
}

// reflectCase reflects a value into a section, compares the file with the
// oracle's and maps it back, directly and after writing and reloading.
func reflectCase(w *core.W, b *before, v reflect.Value, sec string, mapper func(string) string, back bool) *core.Fail {
	o := one(b.opts...).o
	f, err := ini.LoadSources(o, []byte(b.text))
	if err != nil {
		return &core.Fail{Want: "loads", Got: err.Error()}
	}
	d := ref.New(o)
	if err := d.Parse(b.text); err != nil {
		return &core.Fail{Want: "loads", Got: err.Error()}
	}
	f.NameMapper = mapper
	top := f.ReflectFrom
	if sec != "" {
		top = f.Section(sec).ReflectFrom
	} else if b.text == "" {
		top = func(v interface{}) error {
			if mapper == nil {
				return ini.ReflectFrom(f, v)
			}
			f.NameMapper = nil
			return ini.ReflectFromWithMapper(f, v, mapper)
		}
	}
	fl, r := reflectStep(w, f, d, v, sec, mapper, top)
	if fl != nil || r == nil {
		return fl
	}
	if !back || r.Free {
		return nil
	}
	want := backDump(v)
	mapBack := func(f *ini.File, how string) *core.Fail {
		f.NameMapper = mapper
		got := reflect.New(v.Type())
		if v.Kind() == reflect.Ptr {
			got = reflect.New(v.Type().Elem())
		}
		if err := mapEntry(f, sec, got.Interface(), true); err != nil && !strings.Contains(how, "lenient") {
			// a nil pointer has an empty text, which strict mode refuses for other than strings
			if err := mapEntry(f, sec, got.Interface(), false); err != nil {
				return &core.Fail{Want: "mapping back " + how + " succeeds", Got: err.Error()}
			}
		}
		if v.Kind() != reflect.Ptr {
			got = got.Elem()
		}
		w.Step(1)
		if g := backDump(got); g != want {
			return &core.Fail{Want: how + ": " + want, Got: g}
		}
		return nil
	}
	if fl := mapBack(f, "mapped back"); fl != nil {
		return fl
	}
	text := ref.Written(f, "")
	f2, err := ini.LoadSources(o, []byte(text))
	if err != nil {
		return &core.Fail{Want: "written text loads: " + text, Got: err.Error()}
	}
	return mapBack(f2, "mapped back from "+text)
}

// reflectStep reflects v into the section of the library's file and of the model.
// The oracle is nil when nothing more is specified.
func reflectStep(w *core.W, f *ini.File, d *ref.Doc, v reflect.Value, sec string, mapper func(string) string, top func(interface{}) error) (*core.Fail, *ref.Reflecting) {
	held := ref.Dump(nil, v)
	// the library first: the oracle may adopt other texts for the same values
	err := top(v.Interface())
	r := &ref.Reflecting{D: d, NameMapper: mapper, Peek: func(s *ref.Sec, key string) []string {
		l, err := f.SectionsByName(s.Name)
		if err != nil {
			return nil
		}
		for i, x := range d.ByName(s.Name) {
			if x == s && i < len(l) && l[i].HasKey(key) {
				return l[i].Key(key).ValueWithShadows()
			}
		}
		return nil
	}}
	r.Top(d.Section(sec), v)
	w.Step(1)
	w.Trace()
	if !bytes.Equal(held, ref.Dump(nil, v)) {
		return &core.Fail{Want: "the struct unchanged: " + string(held), Got: string(ref.Dump(nil, v))}, nil
	}
	switch {
	case r.Odd:
		return nil, nil
	case r.Fails && err == nil:
		return &core.Fail{Want: "an error", Got: "success"}, nil
	case !r.Fails && !r.Free && err != nil:
		return &core.Fail{Want: "no error", Got: err.Error()}, nil
	case err != nil:
		return nil, nil
	}
	w.B1, w.B2 = d.Observe(w.B1[:0]), ref.Observe(w.B2[:0], f)
	w.State(w.B1)
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Want: string(w.B1), Got: string(w.B2)}, nil
	}
	return nil, r
}

// backDump renders a value up to what cannot be told apart in a file: nil and
// empty lists; skipped and omitted fields are zero.
func backDump(v reflect.Value) string {
	c := reflect.New(v.Type()).Elem()
	normalize(c, v)
	return string(ref.Dump(nil, c))
}

func normalize(to, from reflect.Value) {
	switch from.Kind() {
	case reflect.Ptr:
		if from.IsNil() || from.Elem().Kind() == reflect.String && from.Elem().Len() == 0 {
			return // a nil string has the same text as an empty one
		}
		to.Set(reflect.New(from.Type().Elem()).Convert(from.Type()))
		normalize(to.Elem(), from.Elem())
	case reflect.Struct:
		if from.Type().ConvertibleTo(tof(time.Time{})) {
			to.Set(from)
			return
		}
		t := from.Type()
		for i := 0; i < t.NumField(); i++ {
			if !to.Field(i).CanSet() || t.Field(i).Tag.Get("ini") == "-" {
				continue
			}
			_, refl := from.Field(i).Interface().(ini.StructReflector)
			if refl {
				continue // reflects itself, maps as its type does
			}
			normalize(to.Field(i), from.Field(i))
			if t.Field(i).Anonymous && t.Field(i).Type.Kind() == reflect.Ptr && to.Field(i).IsNil() && !to.Field(i).Type().ConvertibleTo(tof(&time.Time{})) {
				to.Field(i).Set(reflect.New(t.Field(i).Type.Elem())) // mapping allocates embedded structs
			}
		}
	case reflect.Slice:
		if from.Len() == 0 {
			return
		}
		to.Set(reflect.MakeSlice(from.Type(), from.Len(), from.Len()))
		for i := 0; i < from.Len(); i++ {
			normalize(to.Index(i), from.Index(i))
		}
	default:
		to.Set(from)
	}
}

var reflTags = []string{``, `ini:"renamed"`, `ini:"-"`, `ini:",omitempty"`, `ini:",,allowshadow" comment:"says"`, `ini:"renamed,omitempty,allowshadow" delim:";" comment:"; says\nmore"`, `delim:"||"`, `ini:",nonunique"`}

// reflectFields reflects structs of one varied field between two fixed ones.
func reflectFields(name string, types []reflect.Type) core.Space {
	type cse struct {
		t   reflect.Type
		tag string
		v   fieldVal
	}
	var cases []cse
	for _, t := range types {
		vals := valuesOf(t)
		for _, tag := range reflTags {
			st := reflect.StructOf([]reflect.StructField{
				{Name: "Before", Type: tof(0)}, {Name: "Field", Type: t, Tag: reflect.StructTag(tag)}, {Name: "Other", Type: tof(""), Tag: `comment:"the other"`},
			})
			for _, v := range vals {
				cases = append(cases, cse{st, tag, v})
			}
		}
	}
	secs := []string{"", "s", "p.s"}
	radix := []int{len(cases), len(befores), len(secs), 2}
	return core.Space{
		Name: name, N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d (type, tag, value) fields of %d types x %d files with option sets x default, own and child section x name mapper", len(cases), len(types), len(befores)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				c, b, sec := cases[m[0]], &befores[m[1]], secs[m[2]]
				var mapper func(string) string
				if m[3] == 1 {
					mapper = ini.TitleUnderscore
				}
				in := func() string {
					return fmt.Sprintf("reflect field %s `%s` = %s into section %q of %q (%s) mapper=%v", c.t.Field(1).Type, c.tag, ref.Dump(nil, c.v.v), sec, b.text, b.name, mapper != nil)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					v := reflect.New(c.t)
					v.Elem().Field(0).SetInt(3)
					v.Elem().Field(1).Set(c.v.v)
					v.Elem().Field(2).SetString("held")
					fl = reflectCase(w, b, v, sec, mapper, backs(c.t.Field(1), c.v, b))
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// backs tells whether mapping gives a field's value back.
func backs(sf reflect.StructField, v fieldVal, b *before) bool {
	tag := ref.ParseTag(sf, nil)
	switch {
	case tag.Skip:
		return true // both are left alone; the caller's value is dropped by normalize
	case !v.back:
		return false
	case tag.OmitEmpty && b.text != "" && omitted(v.v):
		return false // what is omitted leaves the file's own value
	case sf.Type.Kind() == reflect.Ptr && sf.Type.Elem().Kind() == reflect.Slice:
		return false // cannot be mapped
	}
	t := sf.Type
	if t.Kind() == reflect.Slice {
		if tag.NonUnique {
			return false
		}
		if tag.Shadow && len(b.opts) > 0 {
			seen := map[string]bool{}
			for i := 0; i < v.v.Len(); i++ {
				s := fmt.Sprint(v.v.Index(i))
				if seen[s] {
					return false // duplicates are dropped
				}
				seen[s] = true
			}
		}
	}
	return true
}

func omitted(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice:
		return v.Len() == 0
	}
	return v.IsZero() || fmt.Sprint(v) == "0"
}

func init() {
	register(&core.Check{
		ID:    "C21",
		Bound: "every field type (plain, named, pointer, list, unsupported, self-reflecting) x 8 tags x all values of per-type menus (limits, signs, special floats, zones, quoting) x 9 existing files with option sets x 3 sections x name mapper; all triples of 30 fields; values of 11 struct shapes within 3 (thorough: 4) decisions of zero/full x 13 files; slices into non-unique sections; 21 values that cannot be reflected; each mapped back directly and after write and reload; every tag of <=2 (4) options x 14 field kinds x 20 files; name mappers; histories of <=4 (5) of 21 map, reflect, mapper and content operations on one file; structs of 0..130 fields, sections, levels and list elements",
		Spaces: func(tier string) []core.Space {
			var ptrs []reflect.Type
			for _, t := range scalarTypes {
				ptrs = append(ptrs, reflect.PtrTo(t))
			}
			refl := []reflect.Type{tof(reflVal{}), tof(&reflVal{}), tof(reflPtr{}), tof(&reflPtr{}), tof(reflStr("")), tof(reflErr{}), tof(&reflErr{})}
			return []core.Space{
				reflectFields("scalar-fields", scalarTypes),
				reflectFields("pointer-fields", ptrs),
				reflectFields("list-fields", listTypes),
				reflectFields("other-fields", append(append([]reflect.Type{}, oddTypes...), refl...)),
				reflectTriples(),
				reflectShapes(tier2(tier, 3, 4)),
				reflectSlices(),
				scaledReflect(),
				structHistories(tier2(tier, 4, 5), true),
				tagReflect(tier2(tier, 2, 4)),
				mapperNames(4),
				reflectBad(),
				numberReflects(),
			}
		},
	})
}
