package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// Named field types.
type (
	nString   string
	nBool     bool
	nInt      int
	nInt8     int8
	nUint16   uint16
	nFloat    float64
	nTime     time.Time
	nStrings  []string
	nInts     []int
	nDuration time.Duration
	Duration  int64 // named like the standard one
)

func tof(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var scalarTypes = []reflect.Type{
	tof(""), tof(false), tof(0), tof(int8(0)), tof(int16(0)), tof(int32(0)), tof(int64(0)), tof(uint(0)), tof(uint16(0)), tof(uint32(0)), tof(uint64(0)),
	tof(float32(0)), tof(float64(0)), tof(time.Duration(0)), tof(time.Time{}),
	tof(nString("")), tof(nBool(false)), tof(nInt(0)), tof(nInt8(0)), tof(nUint16(0)), tof(nFloat(0)), tof(nTime{}), tof(nDuration(0)), tof(Duration(0)),
}

var listTypes = []reflect.Type{
	tof([]string{}), tof([]bool{}), tof([]int{}), tof([]int64{}), tof([]uint{}), tof([]uint64{}), tof([]float64{}), tof([]time.Time{}), tof([]time.Duration{}),
	tof(nStrings{}), tof(nInts{}), tof([]nString{}), tof([]nInt{}), tof([]nFloat{}), tof([]nTime{}), tof([]nBool{}),
}

var oddTypes = []reflect.Type{
	tof(map[string]string{}), tof(make(chan int)), tof(func() {}), tof([3]int{}), tof(complex(1, 1)), tof((*interface{})(nil)).Elem(),
	tof([][]int{}), tof([]map[string]int{}), tof([]*int{}), tof([]int8{}), tof([]struct{ A int }{}), tof((**int)(nil)), tof(uintptr(0)),
	tof(uint8(0)), tof([]byte{}), tof((*uint8)(nil)), tof((*[]int)(nil)), tof((*map[string]int)(nil)), tof((*[2]int)(nil)),
	tof((**struct{ A int })(nil)), tof([]**struct{ A int }{}), tof([][]string{}), tof((*[]struct{ A int })(nil)), tof([2]string{}),
}

var mapTexts = []string{
	"", "a", "true", "T", "yes", "Off", "tRuE", "0", "1", "-1", "+1", "5", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536",
	"2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "0x10", "0XfF", "010", "08", "0b11", "0o17", "1_000", "1e3", "1.5", "-0.5", "3.4e38", "3.5e38", "1e39", "1e308", "1e309", "NaN", "Inf", "-inf", " 1", "1 ",
	"1h", "1h30m", "-5s", "1.5h", "1 h", "5m0.5s", "2562047h48m", "2006-01-02T15:04:05Z", "2016-02-29T00:00:00+08:00", "2016-02-30T00:00:00Z", "2006-01-02", "2006-01-02T15:04:05.5Z",
	"%(Other)s", "x%(Other)s", "%(Empty)s", "z", "%(Empty)s%(Empty)s", "%(nope)s", "%(Field)s", "1,2", "a, b ,c", "true,x,no", "1h,2", "a\\,b,c", "1;2", "1; 2 ;", ",", "a,,b", "1.5,x,-2", "2006-01-02T15:04:05Z,y", "1||2",
}

type tagCase struct {
	tag    string
	key    string // the key that the field corresponds to
	decoy  string // a key it does not correspond to
	mapper func(string) string
}

var tagCases = []tagCase{
	{``, "Field", "field", nil},
	{`ini:"renamed"`, "renamed", "Field", nil},
	{`ini:"-"`, "", "Field", nil},
	{`ini:",omitempty" delim:";"`, "Field", "", nil},
	{`ini:",,allowshadow"`, "Field", "", nil},
	{`ini:"renamed,omitempty,allowshadow" delim:"||"`, "renamed", "Field", nil},
	{``, "FIELD", "Field", strings.ToUpper},
	{`ini:"renamed"`, "renamed", "RENAMED", strings.ToUpper},
	{`ini:"-,"`, "-,"[:1], "Field", nil},
}

// mapEntry runs one of the ways to map a section of a file.
func mapEntry(f *ini.File, sec string, v interface{}, strict bool) error {
	switch {
	case sec == "" && strict:
		return f.StrictMapTo(v)
	case sec == "":
		return f.MapTo(v)
	case strict:
		return f.Section(sec).StrictMapTo(v)
	}
	return f.Section(sec).MapTo(v)
}

// fieldCase maps one field and compares it with the oracle.
func fieldSpace(name string, types []reflect.Type, texts []string, opts []optSet) core.Space {
	var all []reflect.Type
	for _, t := range types {
		all = append(all, t)
	}
	type styp struct {
		t   reflect.Type
		ft  reflect.Type
		tag *tagCase
	}
	var structs []styp
	for _, t := range all {
		for i := range tagCases {
			tc := &tagCases[i]
			st := reflect.StructOf([]reflect.StructField{
				{Name: "Before", Type: tof(0)}, {Name: "Field", Type: t, Tag: reflect.StructTag(tc.tag)}, {Name: "Other", Type: tof("")},
			})
			structs = append(structs, styp{st, t, tc})
		}
	}
	wheres := []string{"default", "section", "inherited", "absent", "shadowed"}
	radix := []int{len(structs), len(texts), 2, 2, len(wheres), 2, len(opts)}
	return core.Space{
		Name: name, N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d field types x %d tags/mappers x %d texts x held values x strict x position of the key x value mapper x %d option sets", len(types), len(tagCases), len(texts), len(opts)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				st, text, held, strict, where, vm := structs[m[0]], texts[m[1]], m[2] == 1, m[3] == 1, wheres[m[4]], m[5] == 1
				o := &opts[m[6]]
				if vm && where != "section" {
					return nil
				}
				if where == "shadowed" && !o.o.AllowShadows {
					return nil
				}
				isList := st.ft.Kind() == reflect.Slice
				if isList && (strings.HasPrefix(text, "1e30") || len(text) >= 18 && !strings.Contains(text, "-0")) {
					return nil // out-of-range list elements are C16's
				}
				in := func() string {
					return fmt.Sprintf("map key %q=%q (%s, value mapper %v) to field of type %s with tag `%s` held=%v strict=%v %s", st.tag.key, text, where, vm, st.ft, st.tag.tag, held, strict, o.name)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					f := ini.Empty(o.o)
					d := ref.New(o.o)
					_ = d.Parse("")
					put := func(sec, key, val string) {
						if key == "" {
							return
						}
						_, _ = f.Section(sec).NewKey(key, val)
						_, _ = d.Section(sec).NewKey(key, val)
					}
					sec := ""
					switch where {
					case "section", "shadowed":
						sec = "s"
					case "inherited":
						sec = "s.t"
					}
					put(sec, "Before", "3")
					put("", "Field", "default's")
					put("", "Empty", "")
					src := sec
					if where == "inherited" {
						src = "s"
					}
					if where != "absent" {
						put(src, st.tag.key, text)
						if where == "shadowed" {
							put(src, st.tag.key, "1")
							put(src, st.tag.key, "b;2")
						}
					}
					put(src, st.tag.decoy, "9")
					put(sec, "Other", "5")
					f.NameMapper = st.tag.mapper
					fl = mapCase(w, f, d, st.t, sec, held, strict, vm)
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// mapCase maps a section to a fresh value of a type, twice in lock step: by the library and by the oracle.
func mapCase(w *core.W, f *ini.File, d *ref.Doc, t reflect.Type, sec string, held, strict, vm bool) *core.Fail {
	got, want := reflect.New(t), reflect.New(t)
	if held {
		ref.Fill(got.Elem(), 0)
		ref.Fill(want.Elem(), 0)
	}
	m := &ref.Mapping{D: d, Strict: strict, NameMapper: f.NameMapper, ValueMapper: f.ValueMapper}
	if vm {
		up := func(s string) string { return strings.NewReplacer("1", "2", "a", "true", "h", "m", "z", "").Replace(s) }
		m.ValueMapper, f.ValueMapper = up, up
	}
	before := ref.Observe(nil, f)
	err := mapEntry(f, sec, got.Interface(), strict)
	after := ref.Observe(nil, f)
	s := d.First(sec)
	if s == nil {
		s = &ref.Sec{D: d, Name: sec}
	}
	if t.Kind() == reflect.Slice {
		m.Slice(d.ByName(sec), want.Elem())
	} else {
		m.Struct(s, want.Elem(), 0)
	}
	w.Step(1)
	w.Trace()
	w.B1 = ref.Dump(w.B1[:0], want.Elem())
	w.B2 = ref.Dump(w.B2[:0], got.Elem())
	w.State(w.B1)
	switch {
	case m.Broken:
		return nil
	case !bytes.Equal(before, after):
		return &core.Fail{Want: "file unchanged: " + string(before), Got: string(after)}
	case m.Fails && err == nil:
		return &core.Fail{Want: "an error", Got: "success: " + string(w.B2)}
	case !m.Fails && !m.Free && err != nil:
		return &core.Fail{Want: "no error, " + string(w.B1), Got: err.Error()}
	case m.Fails || m.Free && err != nil:
		return nil // which fields have been set is not specified
	case !bytes.Equal(w.B1, w.B2):
		return &core.Fail{Want: string(w.B1), Got: string(w.B2)}
	}
	return nil
}

func init() {
	register(&core.Check{
		ID:    "C20",
		Bound: "every supported and unsupported field type (plain, named, pointer, list) x 9 tag/mapper forms x 75 texts x held values x strict mode x position of the key x value mapper x options; 24 struct shapes with sections over all documents of their slots; package-level functions over the same documents; 18 targets that are no struct pointers; every tag of <=2 (4) options x 14 field kinds x 5 documents; name mappers on words of <=5 (6) of 12 characters; histories of <=4 (5) of 21 map, reflect, mapper and content operations on one file; structs of 0..130 fields, sections, levels and list elements",
		Spaces: func(tier string) []core.Space {
			ptrs := func(ts []reflect.Type) (out []reflect.Type) {
				for _, t := range ts {
					out = append(out, reflect.PtrTo(t))
				}
				return
			}
			sets := []optSet{one(), one(oShadow)}
			return []core.Space{
				fieldSpace("scalar-fields", scalarTypes, mapTexts, sets),
				fieldSpace("pointer-fields", ptrs(scalarTypes), mapTexts, sets),
				fieldSpace("list-fields", listTypes, mapTexts, sets),
				fieldSpace("unsupported-fields", oddTypes, []string{"1", "a", "2006-01-02T15:04:05Z", ""}, sets),
				shapesSpace([]optSet{one(), one(oNonUniq), one(oNonUniq, oShadow), one(oChild)}),
				scaledMap(),
				structHistories(tier2(tier, 4, 5), false),
				tagMap(tier2(tier, 2, 4)),
				mapperNames(tier2(tier, 5, 6)),
				packageSpace(),
				targetsSpace(),
				numberMaps(),
			}
		},
	})
}
