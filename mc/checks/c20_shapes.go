package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// Struct shapes with sections.
type (
	leaf struct {
		A int
		S string
		L []int
	}
	Leaf  leaf
	Other struct {
		A *int
		B bool
	}
	shNested struct {
		A     int
		Child Leaf
		P     *Leaf `ini:"p"`
		B     bool
	}
	shEmbedded struct {
		Leaf
		*Other
		A int
	}
	shExtends struct {
		Leaf `ini:",extends"`
		B    bool
	}
	shExtendsPtr struct {
		B     bool
		*Leaf `ini:",extends"`
	}
	shExtendsRaw struct {
		Leaf   `ini:"raw,extends"`
		*Other `ini:"other,extends"`
		B      bool
		After  Leaf
	}
	shItem struct {
		A    int
		In   Leaf   `ini:"in"`
		Pin  *Other `ini:"pin"`
		Leaf `ini:"sub,extends"`
		S    string
	}
	shItems struct {
		B     bool
		Items []shItem  `ini:"item,,,nonunique"`
		Ptrs  []*Other  `ini:"item,omitempty,nonunique"`
		Keys  []int     `ini:"item,allowshadow" delim:";"`
		None  []*shItem `ini:"none,nonunique"`
	}
	shDeep struct {
		L2 struct {
			A  int
			L3 *struct {
				A  int
				L4 struct{ A int }
			}
			B bool
		}
		L3 string
		L5 string
	}
	shTimes struct {
		T  time.Time
		PT *time.Time
		N  nTime `ini:"n"`
		D  time.Duration
		Ts []time.Time
	}
	shSkip struct {
		Skipped  Leaf `ini:"-"`
		hidden   Leaf
		Renamed  Other  `ini:"Skipped"`
		SkippedS string `ini:"-"`
		A        int    `ini:",omitempty"`
	}
	shRec struct {
		A    int
		Next *shRec
		Many []shRec `ini:"many,,,nonunique"`
		B    int
	}
	shMutualA struct {
		A int
		B *shMutualB
	}
	shMutualB struct {
		A *shMutualA `ini:"back"`
		S string
	}
	shOddNested struct {
		A int
		M map[string]int
		C struct{ F func() }
		B int
	}
	shNames struct {
		FieldOne  int
		SubStruct struct {
			FieldTwo string
			Fixed    string `ini:"FieldTwo"`
		}
		PtrStruct *struct{ FieldThree bool }
		NonUnique []struct{ FieldOne int } `ini:",,,nonunique"`
	}
)

// slot is a section of a document: absent, or present (several times) with a choice of lines.
type slot struct {
	sec  string
	most int // how many sections of this name
	keys []slotKey
}

type slotKey struct {
	name  string
	texts []string
}

type shape struct {
	t      reflect.Type
	sec    string
	slots  []slot
	mapper func(string) string
}

func k(name string, texts ...string) slotKey { return slotKey{name, texts} }

func shapeMenu() []shape {
	num := []string{"5", "x", ""}
	txt := []string{"t", ""}
	lst := []string{"1, 2,x"}
	bl := []string{"yes", "x"}
	A, S, L, B := k("A", num...), k("S", txt...), k("L", lst...), k("B", bl...)
	var out []shape
	add := func(v interface{}, sec string, slots ...slot) {
		out = append(out, shape{t: reflect.TypeOf(v), sec: sec, slots: slots})
	}
	add(shNested{}, "", slot{"", 1, []slotKey{A, B, k("Child", "1"), k("p", "2")}}, slot{"Child", 1, []slotKey{A, S}}, slot{"p", 1, []slotKey{A, L}})
	add(shNested{}, "s", slot{"", 1, []slotKey{A}}, slot{"s", 1, []slotKey{A, B}}, slot{"s.Child", 1, []slotKey{A}}, slot{"Child", 1, []slotKey{S}}, slot{"p", 1, nil})
	add(shNested{}, "s.t", slot{"s", 1, []slotKey{A, B}}, slot{"s.t", 1, []slotKey{A}}, slot{"Child", 1, []slotKey{S}})
	add(shEmbedded{}, "", slot{"", 1, []slotKey{A, B, k("Leaf", "1")}}, slot{"Leaf", 1, []slotKey{A, S}}, slot{"Other", 1, []slotKey{A, B}})
	add(shExtends{}, "s", slot{"", 1, []slotKey{A}}, slot{"s", 1, []slotKey{A, B, S}}, slot{"s.Leaf", 1, []slotKey{A}}, slot{"Leaf", 1, []slotKey{A}})
	add(shExtendsPtr{}, "", slot{"", 1, []slotKey{A, S, L, B}}, slot{"Leaf", 1, []slotKey{A}})
	add(shExtendsRaw{}, "s", slot{"s", 1, []slotKey{A, B}}, slot{"s.raw", 1, []slotKey{A, S}}, slot{"s.other", 1, []slotKey{B}}, slot{"After", 1, []slotKey{A}}, slot{"raw", 1, []slotKey{S}})
	add(shExtendsRaw{}, "", slot{"", 1, []slotKey{A, B}}, slot{"DEFAULT.raw", 1, []slotKey{A}}, slot{"raw", 1, []slotKey{A}}, slot{".raw", 1, []slotKey{S}}, slot{"DEFAULT.other", 1, []slotKey{A}})
	add(shItems{}, "", slot{"", 1, []slotKey{B, k("item", "1;2", "x")}}, slot{"item", 3, []slotKey{A, B}}, slot{"in", 3, []slotKey{k("A", "5")}}, slot{"pin", 2, []slotKey{k("B", "on")}}, slot{"item.sub", 2, []slotKey{k("S", "t")}})
	add(shItems{}, "q", slot{"q", 2, []slotKey{k("item", "1;2;3")}}, slot{"item", 2, []slotKey{A, S}}, slot{"none", 2, []slotKey{k("A", "5")}})
	add([]shItem{}, "item", slot{"item", 3, []slotKey{A, S}}, slot{"in", 2, []slotKey{A}}, slot{"item.sub", 2, []slotKey{S}})
	add([]*Other{}, "item", slot{"item", 3, []slotKey{A, B}})
	add([]int{}, "item", slot{"item", 2, []slotKey{A}})
	add([]**Other{}, "item", slot{"item", 2, []slotKey{A}})
	add(shDeep{}, "", slot{"", 1, []slotKey{k("L3", "t"), k("L5", "u")}}, slot{"L2", 1, []slotKey{A, B}}, slot{"L3", 1, []slotKey{A}}, slot{"L4", 1, []slotKey{A}}, slot{"L5", 1, []slotKey{A}})
	date := []string{"2016-02-29T10:20:30Z", "2016-02-30T10:20:30Z", ""}
	add(shTimes{}, "", slot{"", 1, []slotKey{k("T", date...), k("PT", date...), k("n", date...), k("D", "5", "1h", "x"), k("Ts", date[0]+","+date[0])}}, slot{"T", 1, []slotKey{k("wall", "1")}}, slot{"PT", 1, nil}, slot{"n", 1, nil})
	add(shSkip{}, "", slot{"", 1, []slotKey{A, k("SkippedS", "x"), k("-", "y"), k("hidden", "z")}}, slot{"Skipped", 1, []slotKey{A, B}}, slot{"hidden", 1, []slotKey{A}}, slot{"-", 1, []slotKey{A}})
	add(shRec{}, "", slot{"", 1, []slotKey{A, B}}, slot{"Next", 1, []slotKey{A}}, slot{"many", 2, []slotKey{A}})
	add(shMutualA{}, "", slot{"", 1, []slotKey{A}}, slot{"B", 1, []slotKey{S}}, slot{"back", 1, []slotKey{A}})
	add(shMutualA{}, "B", slot{"B", 1, []slotKey{A}}, slot{"back", 1, []slotKey{A}})
	add(shOddNested{}, "", slot{"", 1, []slotKey{A, B, k("M", "1")}}, slot{"M", 1, []slotKey{A}}, slot{"C", 1, []slotKey{k("F", "f")}})
	for _, nm := range []struct {
		m     func(string) string
		names []string
	}{
		{nil, []string{"FieldOne", "SubStruct", "FieldTwo", "PtrStruct", "FieldThree", "NonUnique"}},
		{ini.SnackCase, []string{"FIELD_ONE", "SUB_STRUCT", "FIELD_TWO", "PTR_STRUCT", "FIELD_THREE", "NON_UNIQUE"}},
		{ini.TitleUnderscore, []string{"field_one", "sub_struct", "field_two", "ptr_struct", "field_three", "non_unique"}},
		{func(s string) string { return s + "!" }, []string{"FieldOne!", "SubStruct!", "FieldTwo!", "PtrStruct!", "FieldThree!", "NonUnique!"}},
	} {
		n := nm.names
		out = append(out, shape{t: reflect.TypeOf(shNames{}), mapper: nm.m, slots: []slot{
			{"", 1, []slotKey{k(n[0], "5", "x"), k("FieldOne", "6")}}, {n[1], 1, []slotKey{k(n[2], "t"), k("FieldTwo", "u")}},
			{n[3], 1, []slotKey{k(n[4], "on")}}, {n[5], 2, []slotKey{k(n[0], "7")}}, {"SubStruct", 1, []slotKey{k(n[2], "v")}}}})
	}
	return out
}

// choices lists what a slot can be: nothing, or 1..most sections, of which the
// first has every combination of its keys' texts and the others the first text
// with the number of the section added.
func (s slot) choices() [][][][2]string {
	out := [][][][2]string{nil}
	radix := make([]int, len(s.keys))
	for i, k := range s.keys {
		radix[i] = len(k.texts) + 1
	}
	var m []int
	for n := 1; n <= s.most; n++ {
		for i := uint64(0); i < core.Prod(radix); i++ {
			m = core.Mixed(i, radix, m)
			var secs [][][2]string
			for j := 0; j < n; j++ {
				var ks [][2]string
				for x, k := range s.keys {
					t := m[x]
					if j > 0 {
						t = (m[x] + j) % radix[x]
					}
					if t > 0 {
						ks = append(ks, [2]string{k.name, k.texts[t-1]})
					}
				}
				secs = append(secs, ks)
			}
			out = append(out, secs)
		}
	}
	return out
}

// shapeDocs enumerates shape x document.
type shapeDocs struct {
	sh    shape
	slots [][][][][2]string
	radix []int
	n     uint64
}

func shapeCases(menu []shape) (out []*shapeDocs, total uint64) {
	for _, sh := range menu {
		d := &shapeDocs{sh: sh}
		for _, s := range sh.slots {
			c := s.choices()
			d.slots = append(d.slots, c)
			d.radix = append(d.radix, len(c))
		}
		d.n = core.Prod(d.radix)
		total += d.n
		out = append(out, d)
	}
	return
}

// build makes the document in both worlds.
func (c *shapeDocs) build(i uint64, f *ini.File, d *ref.Doc, desc *bytes.Buffer) {
	m := core.Mixed(i, c.radix, nil)
	uniq := !d.O.AllowNonUniqueSections
	for x, s := range c.sh.slots {
		for j, ks := range c.slots[x][m[x]] {
			if uniq && j > 0 {
				break
			}
			var fs *ini.Section
			var ds *ref.Sec
			name := strings.ReplaceAll(s.sec, ".", d.O.ChildSectionDelimiter)
			if name == "" {
				fs, ds = f.Section(""), d.Section("")
			} else {
				fs, _ = f.NewSection(name)
				ds, _ = d.NewSection(name)
			}
			fmt.Fprintf(desc, "[%s]", name)
			for _, kv := range ks {
				fmt.Fprintf(desc, "%s=%s;", kv[0], kv[1])
				_, _ = fs.NewKey(kv[0], kv[1])
				_, _ = ds.NewKey(kv[0], kv[1])
			}
		}
	}
}

func shapesSpace(opts []optSet) core.Space {
	cases, total := shapeCases(shapeMenu())
	return core.Space{
		Name: "shapes", N: total * 4 * uint64(len(opts)), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d struct shapes (nested, pointer, embedded, extended, non-unique, recursive, mapped names) x all documents over their slots x held values x strict x %d option sets", len(cases), len(opts)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				o := &opts[i%uint64(len(opts))]
				i /= uint64(len(opts))
				strict, held := i%2 == 1, i/2%2 == 1
				i /= 4
				var c *shapeDocs
				for _, c = range cases {
					if i < c.n {
						break
					}
					i -= c.n
				}
				var desc bytes.Buffer
				in := func() string {
					return fmt.Sprintf("map %s to section %q of type %s held=%v strict=%v %s", desc.String(), c.sh.sec, c.sh.t, held, strict, o.name)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					f := ini.Empty(o.o)
					d := ref.New(o.o)
					_ = d.Parse("")
					c.build(i, f, d, &desc)
					sec := strings.ReplaceAll(c.sh.sec, ".", d.O.ChildSectionDelimiter)
					if sec != "" && d.First(sec) == nil {
						f.Section(sec)
						d.Section(sec)
					}
					f.NameMapper = c.sh.mapper
					fl = mapCase(w, f, d, c.sh.t, sec, held, strict, false)
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// packageSpace drives the package-level functions, which load and map in one step.
func packageSpace() core.Space {
	var menu []shape
	for _, sh := range shapeMenu() {
		if sh.sec == "" && sh.t.Kind() == reflect.Struct {
			menu = append(menu, sh)
		}
	}
	cases, total := shapeCases(menu)
	return core.Space{
		Name: "package-functions", N: total * 4, Setup: ref.DefaultFormat.Apply,
		Note: "MapTo, StrictMapTo, MapToWithMapper and StrictMapToWithMapper on the text of the same documents, given as one or two sources; a source that does not load is reported",
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				strict, split := i%2 == 1, i/2%2 == 1
				i /= 4
				var c *shapeDocs
				for _, c = range cases {
					if i < c.n {
						break
					}
					i -= c.n
				}
				var desc bytes.Buffer
				var in = func() string {
					return fmt.Sprintf("package-level map of %s to %s strict=%v two sources=%v", desc.String(), c.sh.t, strict, split)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					f := ini.Empty()
					d := ref.New(ini.LoadOptions{})
					_ = d.Parse("")
					c.build(i, f, d, &desc)
					var buf bytes.Buffer
					_, _ = f.WriteTo(&buf)
					first, more := interface{}(buf.Bytes()), []interface{}(nil)
					if split {
						if x := strings.Index(buf.String(), "\n["); x >= 0 {
							first, more = buf.Bytes()[:x+1], append(more, bytes.NewReader(buf.Bytes()[x+1:]))
						}
					}
					got, want := reflect.New(c.sh.t), reflect.New(c.sh.t)
					m := &ref.Mapping{D: d, Strict: strict, NameMapper: c.sh.mapper}
					m.Struct(d.First(""), want.Elem(), 0)
					var err error
					v := got.Interface()
					switch {
					case c.sh.mapper == nil && strict:
						err = ini.StrictMapTo(v, first, more...)
					case c.sh.mapper == nil:
						err = ini.MapTo(v, first, more...)
					case strict:
						err = ini.StrictMapToWithMapper(v, c.sh.mapper, first, more...)
					default:
						err = ini.MapToWithMapper(v, c.sh.mapper, first, more...)
					}
					w.Step(1)
					w.Trace()
					w.B1, w.B2 = ref.Dump(w.B1[:0], want.Elem()), ref.Dump(w.B2[:0], got.Elem())
					w.State(w.B1)
					switch {
					case m.Fails && err == nil:
						fl = &core.Fail{Want: "an error", Got: string(w.B2)}
					case !m.Fails && !m.Free && err != nil:
						fl = &core.Fail{Want: string(w.B1), Got: err.Error()}
					case !m.Fails && err == nil && !bytes.Equal(w.B1, w.B2):
						fl = &core.Fail{Want: string(w.B1), Got: string(w.B2)}
					default:
						blank := ref.Dump(nil, reflect.New(c.sh.t).Elem())
						got = reflect.New(c.sh.t)
						if err := ini.MapToWithMapper(got.Interface(), c.sh.mapper, buf.Bytes(), []byte("no delimiter")); err == nil || !bytes.Equal(blank, ref.Dump(nil, got.Elem())) {
							fl = &core.Fail{Want: "an error about the second source, nothing set", Got: fmt.Sprint(err, string(ref.Dump(nil, got.Elem())))}
						}
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// targetsSpace maps to values that cannot be mapped to.
func targetsSpace() core.Space {
	var nilStruct *Leaf
	var nilIface interface{}
	var n = 5
	var m = map[string]int{}
	var ppNil **Leaf
	pp := new(*Leaf)
	var arr [2]Leaf
	var ints []int
	var leafIface interface{} = &Leaf{}
	targets := []struct {
		name string
		v    interface{}
	}{
		{"nil", nil}, {"nil *struct", nilStruct}, {"struct value", Leaf{}}, {"int", 5}, {"*int", &n}, {"map", m}, {"*map", &m},
		{"nil **struct", ppNil}, {"**struct to nil", pp}, {"*interface nil", &nilIface}, {"*interface holding a struct pointer", &leafIface}, {"*array", &arr}, {"string", "x"}, {"*[]int", &ints}, {"slice", ints},
		{"func", func() {}}, {"*func", new(func())}, {"chan", make(chan int)},
	}
	docs := []string{"", "A=5\n", "A=5\n[s]\nA=6\n", "[s]\n"}
	radix := []int{len(targets), len(docs), 2, 2}
	return core.Space{
		Name: "targets", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: "targets that are not pointers to structs: refused without panic",
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				x := core.Mixed(i, radix, nil)
				tg, doc, strict, sec := targets[x[0]], docs[x[1]], x[2] == 1, []string{"", "s"}[x[3]]
				in := func() string {
					return fmt.Sprintf("map %q section %q to %s strict=%v", doc, sec, tg.name, strict)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					f, err := ini.Load([]byte(doc))
					if err != nil {
						fl = &core.Fail{Got: err.Error(), Want: "loads"}
						return
					}
					if sec != "" {
						f.Section(sec)
					}
					before := ref.Observe(nil, f)
					err = mapEntry(f, sec, tg.v, strict)
					w.Step(1)
					w.Trace()
					w.State([]byte(in()))
					if err == nil {
						fl = &core.Fail{Want: "an error", Got: "success"}
					} else if !bytes.Equal(before, ref.Observe(nil, f)) {
						fl = &core.Fail{Want: "file unchanged", Got: string(ref.Observe(nil, f))}
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}
