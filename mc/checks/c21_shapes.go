package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// Shapes whose fields do not share keys.
type (
	rfPart struct {
		P int
		Q *string
	}
	RfPart rfPart
	RfMore struct {
		M []string `ini:",omitempty"`
		N *int     `comment:"of n"`
	}
	RfSub struct {
		U    int
		Deep struct{ V bool } `comment:"deep"`
	}
	rfNested struct {
		A     int `comment:"of a"`
		Child RfPart
		P     *RfMore `ini:"p" comment:"of p"`
		B     bool    `ini:",omitempty"`
		Skip  RfPart  `ini:"-"`
		priv  RfPart
	}
	rfEmbedded struct {
		RfPart
		*RfMore
		A int
		S string
	}
	rfExtends struct {
		A       int
		RfPart  `ini:",extends"`
		*RfMore `ini:",extends"`
		Z       string
	}
	rfExtendsRaw struct {
		RfPart `ini:"raw,extends"`
		RfSub  `ini:"sub,extends"`
		A      int
	}
	rfItem struct {
		N   int
		In  RfPart  `ini:"in"`
		Pin *RfMore `ini:"pin"`
		T   time.Time
	}
	rfList struct {
		A     int
		Items []rfItem  `ini:"item,,,nonunique" comment:"an item"`
		Peers []*RfPart `ini:"peer,omitempty,nonunique"`
		Last  string    `ini:"item"`
	}
	rfNames struct {
		FieldOne  int
		SubStruct struct{ FieldTwo string }
		PtrStruct *struct{ FieldThree bool } `ini:",omitempty"`
	}
	rfTimes struct {
		T  time.Time
		PT *time.Time `ini:",omitempty"`
		N  nTime
		D  time.Duration
		PD *time.Duration
		Ts []time.Time
		Ds []time.Duration `ini:",,allowshadow"`
	}
	rfReflecting struct {
		A  int
		V  reflVal
		P  *reflPtr
		N  RfPart
		PV *reflVal `ini:",omitempty"`
		VP reflPtr
		Z  string
	}
)

// variants enumerates values of a type: everything that differs from the zero
// value, or from a full one, in at most budget decisions (a leaf is zero or
// not, a pointer nil or not, a slice has 0, 1 or 2 elements).
func variants(t reflect.Type, budget int) []reflect.Value {
	var out []reflect.Value
	seen := map[string]bool{}
	for _, full := range []bool{false, true} {
		// depth-first over decision sequences: taken lists the decisions made so far
		var taken []int
		for {
			pos, used := 0, 0
			var limits []int
			choose := func(n int) int {
				def := 0
				if full {
					def = n - 1
				}
				if pos == len(taken) {
					taken = append(taken, 0)
				}
				d := taken[pos]
				limits = append(limits, n)
				pos++
				if d > 0 {
					used++
				}
				return (def + d) % n
			}
			v := reflect.New(t).Elem()
			vary(v, choose, 0, 1)
			taken = taken[:pos]
			if used <= budget {
				if d := string(ref.Dump(nil, v)); !seen[d] {
					seen[d] = true
					out = append(out, v)
				}
			}
			// next decision sequence within the budget
			i := pos - 1
			for ; i >= 0; i-- {
				spent := 0
				for j := 0; j <= i; j++ {
					if taken[j] > 0 {
						spent++
					}
				}
				if taken[i]+1 < limits[i] && (taken[i] > 0 || spent < budget) {
					taken[i]++
					break
				}
				taken = taken[:i]
			}
			if i < 0 {
				break
			}
			taken = taken[:i+1]
		}
	}
	return out
}

// vary builds a value from decisions; seed tells values of elements apart.
func vary(v reflect.Value, choose func(int) int, depth, seed int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		if depth < 4 && choose(2) == 1 {
			v.Set(reflect.New(t.Elem()).Convert(t))
			vary(v.Elem(), choose, depth+1, seed)
		}
	case reflect.Struct:
		if t.ConvertibleTo(tof(time.Time{})) {
			if choose(2) == 1 {
				v.Set(reflect.ValueOf(time.Date(2000+seed, 2, 3, 4, 5, 6, 0, zone)).Convert(t))
			}
			return
		}
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				vary(v.Field(i), choose, depth+1, seed*3+i)
			}
		}
	case reflect.Slice:
		if depth >= 3 {
			return
		}
		n := choose(3)
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			if et := t.Elem(); et.Kind() == reflect.Ptr {
				v.Index(i).Set(reflect.New(et.Elem()))
				vary(v.Index(i).Elem(), choose, depth+1, seed*5+i)
			} else if et.Kind() == reflect.Struct && !et.ConvertibleTo(tof(time.Time{})) {
				vary(v.Index(i), choose, depth+1, seed*5+i)
			} else {
				vary(v.Index(i), func(int) int { return 1 }, depth+1, seed*5+i)
			}
		}
	default:
		if choose(2) == 1 {
			switch k := t.Kind(); {
			case k == reflect.String:
				v.SetString(fmt.Sprint("v", seed))
			case k == reflect.Bool:
				v.SetBool(true)
			case k >= reflect.Int && k <= reflect.Int64:
				v.SetInt(int64(seed) + 1)
			case k >= reflect.Uint && k <= reflect.Uint64:
				v.SetUint(uint64(seed) + 1)
			default:
				v.SetFloat(float64(seed) + 0.5)
			}
		}
	}
}

// even tells whether all elements of every list of sections have the same
// pointers set: then every element finds its own sections.
func even(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil() || even(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !v.Type().Field(i).Type.ConvertibleTo(tof(time.Time{})) && !even(v.Field(i)) {
				return false
			}
		}
	case reflect.Slice:
		if e := v.Type().Elem(); e.Kind() != reflect.Struct || e.ConvertibleTo(tof(time.Time{})) {
			return true
		}
		for i := 0; i < v.Len(); i++ {
			for j := 0; j < v.Index(i).NumField(); j++ {
				f := v.Index(i).Field(j)
				if f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct && f.IsNil() != v.Index(0).Field(j).IsNil() {
					return false
				}
			}
		}
	}
	return true
}

// whole tells whether every field is written, so that nothing the file held remains.
func whole(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return v.Type().Elem().Kind() != reflect.Struct || !v.IsNil() && whole(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f, sf := v.Field(i), v.Type().Field(i)
			tag := ref.ParseTag(sf, nil)
			if sf.PkgPath != "" || tag.Skip || sf.Type.ConvertibleTo(tof(time.Time{})) && !tag.OmitEmpty {
				continue
			}
			if _, ok := f.Interface().(ini.StructReflector); ok || tag.OmitEmpty && (f.IsZero() || f.Kind() == reflect.Slice && f.Len() == 0) || !whole(f) {
				return false
			}
		}
	case reflect.Slice:
		return v.Type().Elem().Kind() != reflect.Struct || v.Type().Elem().ConvertibleTo(tof(time.Time{}))
	}
	return true
}

var shapeBefores = append([]before{
	{"extension sections", nil, "q=1\n[DEFAULT.raw]\nx=1\n[s.raw]\ny=2\n[raw]\nz=3\n[DEFAULT.sub]\n[s.sub]\n; kept\nk=1\n"},
	{"old sections", nil, "; c\n[Child]\nP=1\nQ=q ; c\nmore=1\n[p]\n[RfPart]\nP=3\n[RfMore]\nN=9\nM=1,2\n[Deep]\nV=true\n[SubStruct]\nFieldTwo=x\n[N]\nP=6\n"},
	{"old sections, non-unique", []opt{oNonUniq}, "[s]\nA=1\nextra=1\n[in]\nP=1\n[z]\n[s]\nA=2\n"},
	{"old peers, non-unique", []opt{oNonUniq, oShadow}, "[DEFAULT]\nA=4\n[in]\nP=1\nP=2\n; kept\n[pin]\nN=1\n"},
	{"default keys, insensitive, non-unique", []opt{oNonUniq, oInsens}, "; top\nKept=1\nA=2\n[S]\nA=3\n[last]\nk=1\n"},
}, befores...)

func reflectShapes(budget int) core.Space {
	type sh struct {
		v      reflect.Value
		mapper func(string) string
		back   bool
		uniq   bool // needs non-unique sections to come back
	}
	var cases []sh
	for _, x := range []interface{}{rfNested{}, rfEmbedded{}, rfExtends{}, rfExtendsRaw{}, rfList{}, rfTimes{}, rfReflecting{}, shMutualA{}, shRec{}, shDeep{}} {
		for _, v := range variants(reflect.TypeOf(x), budget) {
			_, rec := x.(shRec)
			_, mut := x.(shMutualA)
			_, list := x.(rfList)
			cases = append(cases, sh{v, nil, !rec && !mut && even(v), list})
		}
	}
	for _, m := range []func(string) string{nil, ini.SnackCase, ini.TitleUnderscore, func(s string) string { return s + "." + s }} {
		for _, v := range variants(reflect.TypeOf(rfNames{}), budget) {
			cases = append(cases, sh{v, m, true, false})
		}
	}
	secs := []string{"", "s", "p.s"}
	radix := []int{len(cases), len(shapeBefores), len(secs)}
	return core.Space{
		Name: "shapes", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d values of 11 struct shapes (nested, pointer, embedded, extended, non-unique, reflecting, recursive; all values within %d decisions of the zero and of a full value) x %d files with option sets x 3 sections", len(cases), budget, len(shapeBefores)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				c, b, sec := cases[m[0]], &shapeBefores[m[1]], secs[m[2]]
				in := func() string {
					return fmt.Sprintf("reflect %s %s into section %q of %q (%s) mapper=%v", c.v.Type(), ref.Dump(nil, c.v), sec, b.text, b.name, c.mapper != nil)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					p := reflect.New(c.v.Type())
					p.Elem().Set(c.v)
					nonu := one(b.opts...).o.AllowNonUniqueSections
					// what is omitted or appended leaves the file's own content in the way
					back := c.back && (!c.uniq || nonu) && (b.text == "" || b.name == "extension sections" || nonu && !c.uniq && b.name != "old peers, non-unique" && sec != "" ||
						!c.uniq && whole(c.v))
					fl = reflectCase(w, b, p, sec, c.mapper, back)
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// reflectTriples: three fields in every combination, so that none disturbs another.
func reflectTriples() core.Space {
	type fld struct {
		tag string
		v   interface{}
	}
	n := 7
	str := "ptr"
	items := []fld{
		{``, "text"}, {`ini:",omitempty"`, ""}, {`ini:"-"`, "hidden"}, {``, 0}, {`comment:"num"`, 42}, {`ini:",omitempty"`, 0}, {``, false}, {``, &n}, {``, (*int)(nil)}, {`ini:",omitempty"`, (*string)(nil)}, {``, &str},
		{``, []string{"a", "b"}}, {``, []int{}}, {`ini:",,allowshadow" delim:";"`, []int{1, 2, 3}}, {``, time.Date(2016, 2, 29, 1, 2, 3, 0, time.UTC)}, {`ini:",omitempty"`, time.Time{}},
		{`comment:"sec"`, RfPart{P: 3}}, {``, &RfPart{P: 4, Q: &str}}, {``, (*RfPart)(nil)}, {`ini:",omitempty"`, RfMore{N: &n}},
		{``, reflVal{5}}, {``, (*reflPtr)(nil)}, {`ini:",omitempty"`, &reflPtr{6}}, {``, reflStr("x")},
		{`ini:",,,nonunique" comment:"list"`, []RfPart{{P: 1}, {P: 2}}}, {`ini:",omitempty,,nonunique"`, []*RfPart{}}, {`ini:",,,nonunique"`, []*RfPart{{P: 8}}},
		{``, map[string]int{}}, {``, reflErr{}}, {`ini:",omitempty"`, map[string]int(nil)},
	}
	radix := []int{len(items), len(items), len(items), 4, 2}
	bs := []before{befores[0], {"old keys", []opt{oShadow}, "F1=1\nF1=2\nF2=2\nF3=3\n[s]\n; c\nF2=2\n[F1]\nP=9\n[F3]\nP=1\n[z]\n"}, {"non-unique", []opt{oNonUniq}, "[s]\nz=1\n[F1]\nP=5\n[F1]\n"}, {"both", []opt{oNonUniq, oShadow}, "F3=x\n[q]\n"}}
	secs := []string{"", "s"}
	return core.Space{
		Name: "triples", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("all triples of %d fields x %d files x default and named section", len(items), len(bs)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				b, sec := &bs[m[3]], secs[m[4]]
				var fs []reflect.StructField
				for j := 0; j < 3; j++ {
					fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", j+1), Type: reflect.TypeOf(items[m[j]].v), Tag: reflect.StructTag(items[m[j]].tag)})
				}
				v := reflect.New(reflect.StructOf(fs))
				back := b.text == ""
				for j := 0; j < 3; j++ {
					v.Elem().Field(j).Set(reflect.ValueOf(items[m[j]].v))
					back = back && m[j] < 20
				}
				in := func() string {
					return fmt.Sprintf("reflect %s %s into section %q of %q (%s)", v.Type(), ref.Dump(nil, v), sec, b.text, b.name)
				}
				var fl *core.Fail
				core.Guard(in, func() { fl = reflectCase(w, b, v, sec, nil, back) })
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// reflectSlices reflects slices of pointers into the sections of a name.
func reflectSlices() core.Space {
	var cases []reflect.Value
	for _, x := range []interface{}{[]*RfPart{}, []*rfItem{}} {
		for _, v := range variants(reflect.TypeOf(x), 4) {
			cases = append(cases, v)
		}
	}
	texts := []string{"[s]\n", "", "x=1\n[s]\nP=1\n[in]\nP=2\n[s]\nP=2\nkeep=1\n[s]\n[t]\n", "[s]\n[s]\n[s]\n[pin]\n"}
	radix := []int{len(cases), len(texts)}
	return core.Space{
		Name: "section-slices", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d slices of 0 to 2 struct pointers reflected into the sections of a name, which they replace", len(cases)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				v, text := cases[m[0]], texts[m[1]]
				b := &before{"non-unique", []opt{oNonUniq}, text}
				in := func() string {
					return fmt.Sprintf("reflect %s %s into the sections s of %q", v.Type(), ref.Dump(nil, v), text)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					back := v.Len() > 0 && len(text) < 5 && evenElems(v)
					fl = reflectCase(w, b, v, "s", nil, back)
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

func evenElems(v reflect.Value) bool {
	flat := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem().Elem()), 0, v.Len())
	for i := 0; i < v.Len(); i++ {
		flat = reflect.Append(flat, v.Index(i).Elem())
	}
	return even(flat)
}

// reflectBad reflects values that cannot be reflected.
func reflectBad() core.Space {
	cyc := &shRec{A: 1}
	cyc.Next = cyc
	mut := &shMutualA{A: 1, B: &shMutualB{S: "x"}}
	mut.B.A = mut
	var leafIface interface{} = Leaf{}
	n := 5
	vals := []struct {
		name string
		v    interface{}
	}{
		{"nil", nil}, {"nil *struct", (*Leaf)(nil)}, {"struct value", Leaf{}}, {"int", 5}, {"*int", &n}, {"map", map[string]int{}}, {"*map", &map[string]int{}},
		{"slice", []Leaf{}}, {"slice of structs", []Leaf{{}}}, {"*slice", &[]Leaf{{}}}, {"*slice of pointers", &[]*Leaf{{}}}, {"*interface", &leafIface}, {"string", "x"},
		{"func", func() {}}, {"chan", make(chan int)}, {"array", [1]Leaf{}}, {"*array", &[1]Leaf{}}, {"[]int", []int{1}}, {"[]*int", []*int{&n}},
		{"value containing itself", cyc}, {"values containing each other", mut},
	}
	docs := []before{{"", nil, ""}, {"", nil, "A=1\n[s]\nB=2\n"}, {"", []opt{oNonUniq}, "A=1\n[s]\nB=2\n[s]\n"}, {"", []opt{oShadow, oInsens}, "A=1\n[t]\nB=2\n"}}
	radix := []int{len(vals), len(docs), 2}
	return core.Space{
		Name: "values", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: "values that cannot be reflected are refused without panic and without touching other sections",
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				v, b, sec := vals[m[0]], docs[m[1]], []string{"", "s"}[m[2]]
				in := func() string { return fmt.Sprintf("reflect %s into section %q of %q (%d)", v.name, sec, b.text, m[1]) }
				var fl *core.Fail
				core.Guard(in, func() {
					f, err := ini.LoadSources(one(b.opts...).o, []byte(b.text))
					if err != nil {
						fl = &core.Fail{Want: "loads", Got: err.Error()}
						return
					}
					f.Section(sec)
					other := func() []byte {
						var o []byte
						for _, s := range f.Sections() {
							if s.Name() != "s" && strings.ToLower(s.Name()) != "default" && s.Name() != "Next" && s.Name() != "next" && strings.ToLower(s.Name()) != "b" && s.Name() != "back" {
								o = ref.ObserveSec(o, s)
							}
						}
						return o
					}
					had := other()
					if sec == "" {
						err = f.ReflectFrom(v.v)
					} else {
						err = f.Section(sec).ReflectFrom(v.v)
					}
					w.Step(1)
					w.Trace()
					w.State([]byte(in()))
					switch {
					case err == nil && !(sec != "" && m[1] == 2 && v.name == "[]*int"):
						fl = &core.Fail{Want: "an error", Got: "success"}
					case !bytes.Equal(had, other()):
						fl = &core.Fail{Want: "other sections unchanged: " + string(had), Got: string(other())}
					default:
						_ = ref.Written(f, "")
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}
