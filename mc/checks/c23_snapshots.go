package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// C23: what listing accessors return is a snapshot, loading leaves its input
// alone, and two files never influence each other.

// listing is one accessor applied everywhere it can be applied in a file.
type listing struct {
	name string
	f    func(f *ini.File, emit func(v interface{}))
}

func everySec(f *ini.File, g func(s *ini.Section)) {
	for _, s := range f.Sections() {
		g(s)
	}
}

func everyKey(f *ini.File, g func(k *ini.Key)) {
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			g(k)
		}
	}
}

func secListing(name string, g func(s *ini.Section) interface{}) listing {
	return listing{"Section." + name, func(f *ini.File, emit func(interface{})) { everySec(f, func(s *ini.Section) { emit(g(s)) }) }}
}

func keyListing(name string, g func(k *ini.Key) interface{}) listing {
	return listing{"Key." + name, func(f *ini.File, emit func(interface{})) { everyKey(f, func(k *ini.Key) { emit(g(k)) }) }}
}

type mappedLists struct {
	K  []string
	L  []int
	Ks []string `ini:"k,,allowshadow"`
	S  struct {
		K  []string `ini:"x"`
		Ks []string `ini:"k,,allowshadow"`
	} `ini:"a"`
	T []struct {
		Ks []string `ini:"k,,allowshadow"`
	} `ini:"a,,,nonunique"`
}

var listings = []listing{
	{"File.SectionStrings", func(f *ini.File, emit func(interface{})) { emit(f.SectionStrings()) }},
	{"File.Sections", func(f *ini.File, emit func(interface{})) { emit(f.Sections()) }},
	{"File.SectionsByName", func(f *ini.File, emit func(interface{})) {
		for _, n := range append(f.SectionStrings(), "") {
			l, _ := f.SectionsByName(n)
			emit(l)
		}
	}},
	{"File.ChildSections", func(f *ini.File, emit func(interface{})) {
		for _, n := range append(f.SectionStrings(), "gone", "") {
			emit(f.ChildSections(n))
		}
	}},
	secListing("ChildSections", func(s *ini.Section) interface{} { return s.ChildSections() }),
	secListing("Keys", func(s *ini.Section) interface{} { return s.Keys() }),
	secListing("KeyStrings", func(s *ini.Section) interface{} { return s.KeyStrings() }),
	secListing("KeysHash", func(s *ini.Section) interface{} { return s.KeysHash() }),
	secListing("ParentKeys", func(s *ini.Section) interface{} { return s.ParentKeys() }),
	keyListing("ValueWithShadows", func(k *ini.Key) interface{} { return k.ValueWithShadows() }),
	keyListing("NestedValues", func(k *ini.Key) interface{} { return k.NestedValues() }),
	keyListing("Strings", func(k *ini.Key) interface{} { return k.Strings(",") }),
	keyListing("StringsWithShadows", func(k *ini.Key) interface{} { return k.StringsWithShadows(",") }),
	keyListing("Ints", func(k *ini.Key) interface{} { return k.Ints(",") }),
	keyListing("ValidInts", func(k *ini.Key) interface{} { return k.ValidInts(",") }),
	keyListing("StrictFloat64s", func(k *ini.Key) interface{} { l, _ := k.StrictFloat64s(","); return l }),
	keyListing("Bools", func(k *ini.Key) interface{} { return k.Bools(",") }),
	keyListing("Times", func(k *ini.Key) interface{} { return k.Times(",") }),
	{"File.MapTo", func(f *ini.File, emit func(interface{})) {
		var m mappedLists
		_ = f.MapTo(&m)
		emit(m.K)
		emit(m.L)
		emit(m.Ks)
		emit(m.S.K)
		emit(m.S.Ks)
		emit(m.T)
		for _, t := range m.T {
			emit(t.Ks)
		}
	}},
}

// show prints a container; handles by identity.
func show(b []byte, v interface{}) []byte {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Map:
		for _, k := range core.SortedKeys(v.(map[string]string)) {
			b = append(b, fmt.Sprintf("%q:%q,", k, v.(map[string]string)[k])...)
		}
	default:
		switch l := v.(type) {
		case []string:
			for _, s := range l {
				b = append(b, fmt.Sprintf("%q,", s)...)
			}
		case []*ini.Section:
			for _, s := range l {
				b = append(b, fmt.Sprintf("%p,", s)...)
			}
		case []*ini.Key:
			for _, s := range l {
				b = append(b, fmt.Sprintf("%p,", s)...)
			}
		default:
			b = append(b, fmt.Sprintf("%v", v)...)
		}
	}
	return append(b, '\n')
}

func showAll(b []byte, vs []interface{}) []byte {
	for _, v := range vs {
		b = show(b, v)
	}
	return b
}

// scramble changes a container in every way its holder can: overwrite each
// element, overwrite what lies between length and capacity, append, add, remove.
func scramble(v interface{}) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Map:
		m := v.(map[string]string)
		for k := range m {
			m[k] = "scrambled"
		}
		for _, k := range core.SortedKeys(m) {
			delete(m, k)
			break
		}
		m["added"] = "scrambled"
		m["k"] = "scrambled"
	case reflect.Slice:
		junk := reflect.Zero(rv.Type().Elem())
		if rv.Type().Elem().Kind() == reflect.String {
			junk = reflect.ValueOf("scrambled")
		}
		all := rv.Slice(0, rv.Cap())
		for i := 0; i < all.Len(); i++ {
			all.Index(i).Set(junk)
		}
		reflect.Append(rv, junk)
	}
}

func collect(l *listing, f *ini.File) (out []interface{}) {
	l.f(f, func(v interface{}) { out = append(out, v) })
	return
}

// fop is one operation on one file; what it answers is compared.
type fop struct {
	name string
	f    func(f *ini.File) string
}

func onSecOf(f *ini.File, n string, g func(s *ini.Section) string) string {
	s, err := f.GetSection(n)
	if err != nil {
		return "no section"
	}
	return g(s)
}

func onKeyOf(f *ini.File, n, k string, g func(k *ini.Key) string) string {
	return onSecOf(f, n, func(s *ini.Section) string {
		if !s.HasKey(k) {
			return "no key"
		}
		return g(s.Key(k))
	})
}

var fops = []fop{
	{"NewSection(a)", func(f *ini.File) string { _, err := f.NewSection("a"); return errs(err) }},
	{"NewSection(new)", func(f *ini.File) string { _, err := f.NewSection("new"); return errs(err) }},
	{"NewRawSection(a,body)", func(f *ini.File) string { _, err := f.NewRawSection("a", "body"); return errs(err) }},
	{"DeleteSection(a)", func(f *ini.File) string { f.DeleteSection("a"); return "" }},
	{"DeleteSectionWithIndex(a,0)", func(f *ini.File) string { return errs(f.DeleteSectionWithIndex("a", 0)) }},
	{"DeleteSection()", func(f *ini.File) string { f.DeleteSection(""); return "" }},
	{"Section(a).Key(m)", func(f *ini.File) string { return f.Section("a").Key("m").Value() }},
	{"a.NewKey(n,1)", func(f *ini.File) string {
		return onSecOf(f, "a", func(s *ini.Section) string { _, err := s.NewKey("n", "1"); return errs(err) })
	}},
	{"a.NewKey(k,other)", func(f *ini.File) string {
		return onSecOf(f, "a", func(s *ini.Section) string { _, err := s.NewKey("k", "other"); return errs(err) })
	}},
	{"a.DeleteKey(k)", func(f *ini.File) string {
		return onSecOf(f, "a", func(s *ini.Section) string { s.DeleteKey("k"); return "" })
	}},
	{"a.k.SetValue(v)", func(f *ini.File) string {
		return onKeyOf(f, "a", "k", func(k *ini.Key) string { k.SetValue("v"); return "" })
	}},
	{"DEFAULT.k.SetValue(v)", func(f *ini.File) string {
		return onKeyOf(f, "", "k", func(k *ini.Key) string { k.SetValue("v"); return "" })
	}},
	{"a.k.AddShadow(s)", func(f *ini.File) string {
		return onKeyOf(f, "a", "k", func(k *ini.Key) string { return errs(k.AddShadow("s")) })
	}},
	{"a.k.AddNestedValue(n)", func(f *ini.File) string {
		return onKeyOf(f, "a", "k", func(k *ini.Key) string { return errs(k.AddNestedValue("n")) })
	}},
	{"a.k.MustInt(7)", func(f *ini.File) string {
		return onKeyOf(f, "a", "k", func(k *ini.Key) string { return fmt.Sprint(k.MustInt(7)) })
	}},
	{"a.Comment/Body", func(f *ini.File) string {
		return onSecOf(f, "a", func(s *ini.Section) string { s.Comment = "; sc"; s.SetBody("sb"); return s.Body() })
	}},
	{"Reload", func(f *ini.File) string { return errs(f.Reload()) }},
	{"Append([a] k=app)", func(f *ini.File) string { return errs(f.Append([]byte("[a]\nk=app\nz=1\n"))) }},
	{"WriteTo", func(f *ini.File) string { var b bytes.Buffer; _, err := f.WriteTo(&b); return errs(err) + b.String() }},
	{"ReflectFrom", func(f *ini.File) string {
		return errs(f.ReflectFrom(&struct {
			K []string
			A struct{ K int } `ini:"a"`
		}{K: []string{"p", "q"}}))
	}},
	{"ReflectFromWithMapper", func(f *ini.File) string {
		return errs(ini.ReflectFromWithMapper(f, &struct{ FooBar string }{"x"}, ini.SnackCase))
	}},
	{"ValueMapper=upper", func(f *ini.File) string { f.ValueMapper = strings.ToUpper; return "" }},
	{"BlockMode=false", func(f *ini.File) string { f.BlockMode = false; return "" }},
	{"MapTo", func(f *ini.File) string {
		var m mappedLists
		return fmt.Sprint(errs(f.MapTo(&m)), m)
	}},
	{"StrictMapTo", func(f *ini.File) string {
		m := mappedLists{K: []string{"preset"}}
		return fmt.Sprint(errs(f.StrictMapTo(&m)), m)
	}},
	{"a.k.String", func(f *ini.File) string { return onKeyOf(f, "a", "k", func(k *ini.Key) string { return k.String() }) }},
}

// deepFops change the file's own lists in every way.
var deepFops = []string{"NewSection(new)", "DeleteSection(a)", "DeleteSectionWithIndex(a,0)", "Section(a).Key(m)", "a.NewKey(n,1)", "a.DeleteKey(k)",
	"a.k.SetValue(v)", "a.k.AddShadow(s)", "a.k.AddNestedValue(n)", "Append([a] k=app)", "ReflectFrom"}

func pickFops(names []string) (out []fop) {
	for _, n := range names {
		for _, o := range fops {
			if o.name == n {
				out = append(out, o)
			}
		}
	}
	if len(out) != len(names) {
		panic("unknown operation")
	}
	return
}

func fword(ops []fop, word []int) string {
	var s []string
	for _, o := range word {
		s = append(s, ops[o].name)
	}
	return strings.Join(s, "; ")
}

var snapDocs = []string{
	"k=1,2\n[a]\nk=x,y\nk=z\n  nested\nm=%(k)s\n[a.b]\nk=3\n[a]\nk=4\nl\n",
	"[a]\nk=v\n  n1\n  n2\nk=w\nk=u\nx=1\ny=2\nz=3\n[b]\n[c]\n[a.b.c]\nq=1\n[a.b]\nr=2\n",
	"",
	"[a]\nraw body\n[A]\nK=1\nk=2\n",
}

func snapSets() []optSet {
	base := []opt{oBool, oSkip}
	return []optSet{
		one(base...), one(append(base, oShadow)...), one(append(base, oShadow, oNested, oDup)...), one(append(base, oNonUniq, oShadow, oNested)...), one(append(base, oInsens, oNested)...), one(append(base, oRaw, oNonUniq)...),
	}
}

// snapshotSpace: every history of <=l operations between taking a listing and using it.
func snapshotSpace(name string, fops []fop, l int) core.Space {
	sets := snapSets()
	nb := uint64(len(sets) * len(snapDocs))
	return core.Space{
		Name: name, N: nb * core.WordsUpTo(len(fops), l),
		Note:  fmt.Sprintf("%d listings x all histories of <=%d of %d operations x %d documents x %d option sets: listings stay as taken, and scrambling them (every element, spare capacity, appending, adding, deleting) changes neither the file nor another listing", len(listings), l, len(fops), len(snapDocs), len(sets)),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			var word []int
			var b1, b2, b3 []byte
			return func(i uint64) (res *core.Fail) {
				o := &sets[i%uint64(len(sets))]
				doc := snapDocs[i/uint64(len(sets))%uint64(len(snapDocs))]
				word = core.Word(len(fops), i/nb, word)
				in := func() string { return fmt.Sprintf("%s %q: %s", o.name, doc, fword(fops, word)) }
				core.Guard(in, func() {
					f, err := ini.LoadSources(o.o, []byte(doc))
					if err != nil {
						panic(err)
					}
					taken := make([][]interface{}, len(listings))
					before := make([]string, len(listings))
					for j := range listings {
						taken[j] = collect(&listings[j], f)
						before[j] = string(showAll(nil, taken[j]))
					}
					for _, p := range word {
						fops[p].f(f)
					}
					w.Step(len(word) + 2*len(listings))
					w.Trace()
					for j := range listings {
						if b1 = showAll(b1[:0], taken[j]); string(b1) != before[j] {
							res = &core.Fail{Key: in(), Input: listings[j].name + " taken before: " + in(), Want: "still " + before[j], Got: string(b1)}
							return
						}
					}
					full := func(b []byte) []byte { return append(ref.Observe(b, f), ref.Written(f, "")...) }
					w.B1 = full(w.B1[:0])
					w.State(w.B1)
					for j := range listings {
						one, two := collect(&listings[j], f), collect(&listings[j], f)
						b1, b2 = showAll(b1[:0], one), showAll(b2[:0], two)
						for _, v := range one {
							scramble(v)
						}
						if b3 = showAll(b3[:0], two); !bytes.Equal(b2, b3) {
							res = &core.Fail{Key: in(), Input: listings[j].name + " scrambled, another one taken before it, after: " + in(), Want: string(b2), Got: string(b3)}
							return
						}
						b3 = showAll(b3[:0], collect(&listings[j], f))
						// MapTo lists handles only by value; identities compare for the others
						if w.B2 = full(w.B2[:0]); !bytes.Equal(b1, b3) || !bytes.Equal(w.B1, w.B2) {
							res = &core.Fail{Key: in(), Input: listings[j].name + " scrambled after: " + in(), Want: string(b1) + string(w.B1), Got: string(b3) + string(w.B2)}
							return
						}
					}
				})
				return
			}
		},
	}
}

// inputSpace: loading, every operation and reloading leave the input bytes (and
// the bytes behind them) alone, and changing the bytes later does not reach the file.
func inputSpace(tier string) core.Space {
	sets := optSets(parseOpts, tier2(tier, 1, 2))
	menu := []string{"k", "=", "\"", "`", "\\", "\n", "#", "[a]", " ", "'", "\r\n", "\xef\xbb\xbf", "\"\"\"", "-="}
	t := words("", menu, tier2(tier, 3, 4), "", "\n", "x\ny=2\n[a]\nr")
	ns := uint64(len(sets))
	return core.Space{
		Name: "input-bytes", N: ns * t.n,
		Note: fmt.Sprintf("%d documents x %d option sets: the given bytes and their spare capacity are unchanged by loading, reading, writing and reloading, and scrambling them afterwards does not change the file", t.n, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			var data, keep, junk []byte
			return func(i uint64) (res *core.Fail) {
				o := &sets[i%ns]
				text := t.gen(&g, i/ns)
				in := func() string { return fmt.Sprintf("%s %q", o.name, text) }
				core.Guard(in, func() {
					data = append(append(data[:0], text...), "\nspare=1\n"...)
					keep = append(keep[:0], data...)
					src := data[:len(text)]
					f, err := ini.LoadSources(o.o, src)
					w.Step(1)
					w.Trace()
					if !bytes.Equal(data, keep) {
						res = &core.Fail{Key: in(), Input: "load " + in(), Want: "input bytes unchanged", Got: q(data)}
						return
					}
					if err != nil {
						return
					}
					w.B1 = append(ref.Observe(w.B1[:0], f), ref.Written(f, "")...)
					w.State(w.B1)
					for j := range data {
						data[j] = '['
					}
					w.B2 = append(ref.Observe(w.B2[:0], f), ref.Written(f, "")...)
					if !bytes.Equal(w.B1, w.B2) {
						res = &core.Fail{Key: in(), Input: "load, then change the bytes: " + in(), Want: string(w.B1), Got: string(w.B2)}
						return
					}
					copy(data, keep)
					for p := range fops {
						if n := fops[p].name; strings.HasPrefix(n, "Append") || n == "Reload" || n == "MapTo" || strings.HasPrefix(n, "ReflectFrom") || n == "DeleteSection(a)" || n == "WriteTo" {
							fops[p].f(f)
							w.Step(1)
						}
					}
					if !bytes.Equal(data, keep) {
						res = &core.Fail{Key: in(), Input: "operate on " + in(), Want: "input bytes unchanged", Got: q(data)}
						return
					}
					// results of a second load of the same slice are those of a private copy
					junk = append(junk[:0], text...)
					a, erra := ini.LoadSources(o.o, src)
					b, errb := ini.LoadSources(o.o, junk)
					if errs(erra) != errs(errb) || erra == nil && ref.Written(a, "") != ref.Written(b, "") {
						res = &core.Fail{Key: in(), Input: "load a second time " + in(), Want: "what the first load gave", Got: fmt.Sprint(erra, errb)}
					}
				})
				return
			}
		},
	}
}

// settings reads the package-wide settings.
func settings() string {
	return fmt.Sprint(ini.PrettyFormat, ini.PrettyEqual, ini.PrettySection, ini.DefaultHeader, ini.DefaultFormatLeft, ini.DefaultFormatRight, ini.LineBreak, ini.DefaultSection)
}

// twoFilesSpace: every interleaving of operations on two files loaded from the
// same source gives each file what its own operations alone give it.
func twoFilesSpace(name string, fops []fop, sets []optSet, l int) core.Space {
	docs := snapDocs[:2]
	kinds := []string{"same bytes", "same path", "one file given twice"}
	k := 2 * len(fops)
	nb := uint64(len(sets) * len(docs) * len(kinds))
	return core.Space{
		Name: name, N: nb * core.WordsUpTo(k, l),
		Note:  fmt.Sprintf("all interleavings of <=%d of %d operations on two files sharing byte slice, path and options x %d documents x %d option sets x %d ways: each file answers and ends as if alone, the sources and package settings stay", l, k/2, len(docs), len(sets), len(kinds)),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			var word []int
			dir := core.ScratchDir()
			paths := make([]string, len(docs))
			for i, d := range docs {
				paths[i] = filepath.Join(dir, fmt.Sprintf("shared%p-%d.ini", w, i))
				mustWrite(paths[i], []byte(d))
			}
			base := settings()
			return func(i uint64) (res *core.Fail) {
				x := i
				o := &sets[x%uint64(len(sets))]
				x /= uint64(len(sets))
				di := int(x % uint64(len(docs)))
				x /= uint64(len(docs))
				kind := int(x % uint64(len(kinds)))
				word = core.Word(k, x/uint64(len(kinds)), word)
				in := func() string {
					var s []string
					for _, p := range word {
						s = append(s, fmt.Sprintf("%c.%s", 'f'+p%2, fops[p/2].name))
					}
					return fmt.Sprintf("%s %q %s: %s", o.name, docs[di], kinds[kind], strings.Join(s, "; "))
				}
				data := []byte(docs[di])
				var err error
				load := func(own bool) *ini.File {
					var f *ini.File
					d := data
					if own {
						d = []byte(docs[di])
					}
					switch kind {
					case 0:
						f, err = ini.LoadSources(o.o, d)
					case 1:
						f, err = ini.LoadSources(o.o, paths[di])
					default:
						f, err = ini.LoadSources(o.o, d, d)
					}
					return f
				}
				core.Guard(in, func() {
					fs := [2]*ini.File{load(false), load(false)}
					if err != nil {
						return // e.g. a boolean key again
					}
					var ans [2][]string
					for _, p := range word {
						ans[p%2] = append(ans[p%2], fops[p/2].f(fs[p%2]))
					}
					w.Step(len(word))
					w.Trace()
					for side := 0; side < 2; side++ {
						alone := load(true)
						var a []string
						for _, p := range word {
							if p%2 == side {
								a = append(a, fops[p/2].f(alone))
							}
						}
						w.B1 = append(ref.Observe(w.B1[:0], alone), ref.Written(alone, "")...)
						w.B2 = append(ref.Observe(w.B2[:0], fs[side]), ref.Written(fs[side], "")...)
						w.State(w.B1)
						if !bytes.Equal(w.B1, w.B2) || strings.Join(a, "\x00") != strings.Join(ans[side], "\x00") {
							res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("file %c as if alone: %q %q", 'f'+side, a, w.B1), Got: fmt.Sprintf("%q %q", ans[side], w.B2)}
							return
						}
					}
					if s := settings(); s != base || string(data) != docs[di] {
						res = &core.Fail{Key: in(), Input: in(), Want: "package settings and input as before: " + base, Got: s + q(data)}
						return
					}
					if len(word) == l && kind == 1 && i%97 == 0 {
						if b, _ := os.ReadFile(paths[di]); string(b) != docs[di] {
							res = &core.Fail{Key: in(), Input: in(), Want: "source file as before", Got: q(b)}
						}
					}
				})
				return
			}
		},
	}
}

type snapStruct struct {
	K []string
	L []int
	P *string
	A struct {
		K []string `ini:"k,,allowshadow"`
		X []float64
	} `ini:"a"`
	T []struct {
		K []string
	} `ini:"t,,,nonunique"`
}

// structSpace: reflecting does not change the struct, mapping does not write
// into lists the struct held before, and neither side reaches the other later.
func structSpace() core.Space {
	lists := [][]string{nil, {}, {"1"}, {"1", "2"}, {"3", "", "4"}, {"5", "6", "7", "8"}}
	sets := snapSets()
	n := len(lists)
	return core.Space{
		Name: "structs", N: uint64(len(sets) * n * n * n),
		Note:  "reflected and mapped lists share nothing with the file, nor with the lists the struct held before",
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) (res *core.Fail) {
				o := &sets[i%uint64(len(sets))]
				var ix []int
				ix = core.Mixed(i/uint64(len(sets)), []int{n, n, n}, ix)
				in := func() string { return fmt.Sprintf("%s lists %v", o.name, ix) }
				cp := func(j int) []string {
					if lists[j] == nil {
						return nil
					}
					return append(make([]string, 0, 8), lists[j]...)
				}
				mk := func() *snapStruct {
					var v snapStruct
					v.K, v.A.K, v.L = cp(ix[0]), cp(ix[1]), []int{1, 2}
					v.A.X = []float64{1, 2, 3}
					p := "p"
					v.P = &p
					for _, s := range cp(ix[2]) {
						v.T = append(v.T, struct{ K []string }{[]string{s}})
					}
					return &v
				}
				core.Guard(in, func() {
					v := mk()
					f := ini.Empty(o.o)
					err := f.ReflectFrom(v)
					w.Step(4)
					w.Trace()
					if !reflect.DeepEqual(v, mk()) {
						res = &core.Fail{Key: in(), Input: "ReflectFrom " + in(), Want: fmt.Sprintf("%+v", mk()), Got: fmt.Sprintf("%+v", v)}
						return
					}
					w.B1 = append(ref.Observe(w.B1[:0], f), ref.Written(f, "")...)
					w.State(w.B1)
					for _, l := range []interface{}{v.K, v.A.K, v.L, v.A.X, v.T} {
						scramble(l)
					}
					*v.P = "scrambled"
					w.B2 = append(ref.Observe(w.B2[:0], f), ref.Written(f, "")...)
					if !bytes.Equal(w.B1, w.B2) {
						res = &core.Fail{Key: in(), Input: "ReflectFrom, then change the struct " + in(), Want: string(w.B1), Got: string(w.B2)}
						return
					}
					if err != nil {
						return
					}
					// a preset struct: its old lists are not written into
					m := &snapStruct{}
					old := cp(ix[1])
					oldInts := []int{9, 9, 9, 9, 9}
					m.K, m.A.K, m.L = old, old, oldInts
					if old == nil {
						old = []string{}
					}
					keep := append([]string(nil), old[:cap(old)]...)
					_ = f.MapTo(m)
					if got := old[:cap(old)]; !reflect.DeepEqual(append([]string(nil), got...), keep) || oldInts[0] != 9 || oldInts[1] != 9 {
						res = &core.Fail{Key: in(), Input: "MapTo into preset lists " + in(), Want: fmt.Sprintf("the preset lists unchanged %q", keep), Got: fmt.Sprintf("%q %v", got, oldInts)}
						return
					}
				})
				return
			}
		},
	}
}

func init() {
	register(&core.Check{
		ID:    "C23",
		Bound: "all histories of <=2 (3) of 26 and <=3 (4) of 11 operations between taking and using each of 19 listings; all interleavings of <=2 of 26 and <=3 (4) of 11 operations on two files; documents of <=3 (4) symbols x option sets within 1 (2) deviations for the input bytes",
		Assumptions: []string{
			"a listing is compared by its elements; section and key handles by identity (they are meant to be live)",
			"what happens on Reload after the caller itself changed the bytes it gave is not specified",
		},
		Spaces: func(tier string) []core.Space {
			return []core.Space{
				snapshotSpace("snapshots", fops, tier2(tier, 2, 3)),
				snapshotSpace("snapshots-deep", pickFops(deepFops), tier2(tier, 3, 4)),
				inputSpace(tier),
				twoFilesSpace("two-files", fops, snapSets(), 2),
				twoFilesSpace("two-files-deep", pickFops(deepFops), snapSets()[2:4], tier2(tier, 3, 4)),
				structSpace(),
				successiveLoads(tier == "thorough"),
			}
		},
	})
}
