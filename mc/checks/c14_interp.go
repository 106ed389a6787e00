package checks

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

var mappers = []struct {
	name string
	f    func(string) string
}{
	{"none", nil},
	{"identity", func(s string) string { return s }},
	{"$->%(a)s", func(s string) string { return strings.ReplaceAll(s, "$", "%(a)s") }},
	{"<..>", func(s string) string { return "<" + s + ">" }},
}

// interpRead reads every key in every string form and compares.
func interpRead(w *core.W, x *world, mapper int, in func() string) (res *core.Fail) {
	calls := 0
	x.lib.ValueMapper = nil
	if f := mappers[mapper].f; f != nil {
		x.lib.ValueMapper = func(s string) string { calls++; return f(s) }
	}
	secs := x.lib.Sections()
	for i, s := range x.d.Secs {
		keys := secs[i].Keys()
		for j, k := range s.Keys {
			want, settled := k.Transform(k.Value, mappers[mapper].f)
			calls = 0
			got := keys[j].String()
			w.Step(1)
			if mappers[mapper].f != nil && calls != 1 {
				res = &core.Fail{Key: in(), Input: in() + " key " + s.Name + "." + k.Name, Want: "mapper applied once", Got: fmt.Sprintf("%d times", calls)}
				return res
			}
			if !settled {
				// bounded result; the same again
				if len(got) > 4<<20 {
					res = &core.Fail{Key: in(), Input: in() + " key " + s.Name + "." + k.Name, Want: "a bounded value", Got: fmt.Sprintf("%d bytes", len(got))}
					return res
				}
				continue
			}
			bad := func(q, want, got string) {
				res = &core.Fail{Key: in(), Input: in() + " key " + s.Name + "." + k.Name + " " + q, Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%q", got)}
			}
			if got != want {
				bad("String", want, got)
				return res
			}
			if v := keys[j].Validate(func(s string) string { return "<" + s + ">" }); v != "<"+want+">" {
				bad("Validate", want, v)
				return res
			}
			if v := strings.Join(keys[j].Strings("\x00"), "|"); v != strings.TrimSpace(want) && !strings.Contains(want, "\\") {
				bad("Strings", want, v)
				return res
			}
			// with shadows: every raw value split first, then read element by element
			var ws, gs []string
			all := true
			for _, raw := range k.Values() {
				for _, e := range strings.Split(raw, ",") {
					r, ok := k.Transform(strings.TrimSpace(e), mappers[mapper].f)
					ws, all = append(ws, r), all && ok
				}
			}
			gs = keys[j].StringsWithShadows(",")
			if all && strings.Join(ws, "\x00") != strings.Join(gs, "\x00") {
				bad("StringsWithShadows", fmt.Sprint(ws), fmt.Sprint(gs))
				return res
			}
		}
	}
	return nil
}

// interpCase loads a document, reads every key in every string form and compares.
func interpCase(w *core.W, o *optSet, doc string, mapper int, noDefault bool) *core.Fail {
	in := func() string {
		return fmt.Sprintf("%s %q mapper %s default-deleted=%v", o.name, doc, mappers[mapper].name, noDefault)
	}
	var res *core.Fail
	core.Guard(in, func() {
		x := newWorld(o, doc)
		x.lib.ValueMapper = nil
		if noDefault {
			x.lib.DeleteSection("")
			x.d.Delete("")
		}
		if res = interpRead(w, x, mapper, in); res != nil {
			return
		}
		w.Trace()
		if a, b := x.final(w, ref.DefaultFormat); a != b {
			res = &core.Fail{Key: in(), Input: in() + " stored content after reading", Want: b, Got: a}
		}
		w.State(w.B1)
	})
	return res
}

// interpHistories explores changes of what references refer to between readings.
func interpHistories(l int) core.Space {
	read := op{"read all", nil}
	ops := []op{read,
		opPut("", "b", "1"), opPut("", "b", "%(c)s"), opPut("", "c", "3"), opPut("p", "a", "%(b)s"), opPut("p", "b", "2"), opPut("p.q", "a", "<%(b)s>"), opPut("p.q", "b", "5"),
		opDropKey("", "b"), opDropKey("p", "b"), opDropSection("p"), opDropSection(""),
		opDo("p.a.SetValue(%(c)s)", func(f *ini.File) {
			if s, err := f.GetSection("p"); err == nil && s.HasKey("a") {
				s.Key("a").SetValue("%(c)s")
			}
		}, func(d *ref.Doc) {
			if s := d.First("p"); s != nil && s.Get("a") != nil {
				s.Get("a").Value = "%(c)s"
			}
		}),
		opPutShadow("p", "a", "%(b)s,%(c)s"), opAnotherSection("p"),
	}
	for i := range mappers {
		i := i
		ops = append(ops, op{"ValueMapper " + mappers[i].name, func(x *world) (string, string) { x.mapper = i; return "", "" }})
	}
	sets := []optSet{one(), one(oShadow, oNonUniq), one(oInsens)}
	docs := []string{"", "b=B\nc=C\n[p]\na=%(b)s%(B)s\nb=%(c)s\n[p.q]\na=%(b)s\nd=$\n"}
	nb := uint64(len(sets) * len(docs))
	return core.Space{
		Name: "histories", N: nb * core.WordsUpTo(len(ops), l), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("all histories of <=%d of %d operations (reading everything, changing, creating and deleting what references refer to, other mappers) x %d documents x %d option sets, everything read at the end", l, len(ops), len(docs), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var word []int
			return func(i uint64) (res *core.Fail) {
				o, doc := &sets[i%uint64(len(sets))], docs[i/uint64(len(sets))%uint64(len(docs))]
				word = core.Word(len(ops), i/nb, word)
				in := func() string { return describe(o, doc, ops, word) }
				core.Guard(in, func() {
					x := newWorld(o, doc)
					for _, p := range append(word, 0) {
						if p > 0 {
							ops[p].f(x)
						} else if res = interpRead(w, x, x.mapper, in); res != nil {
							return
						}
					}
					w.Trace()
					if a, b := x.final(w, ref.DefaultFormat); a != b {
						res = &core.Fail{Key: in(), Input: in() + " stored content after reading", Want: b, Got: a}
					}
					w.State(w.B1)
				})
				return
			}
		},
	}
}

func init() {
	register(&core.Check{
		ID:    "C14",
		Bound: "all assignments of 5 (10) values (or absence) to keys a,b in the default, a parent and a child section; all 1..99-long chains and longer ones; doubling cycles; 4 value mappers; insensitive, shadow and delimiter options; every form of the reference syntax up to 5 (6) symbols; all words of 4 (5) name symbols inside a reference; references to 1..98 keys; all histories of <=4 (5) of 19 operations between readings",
		Assumptions: []string{
			"when the references do not come to an end (cycles) or exceed 64 KiB only termination, boundedness (4 MiB) and unchanged stored values are required",
			"an unresolvable reference ends the substitution (as documented in the code)",
		},
		Spaces: func(tier string) []core.Space {
			menu := []string{"v", "%(a)s", "%(b)s", "x%(b)s,%(a)s", "%(c)s-%(a)s"}
			if tier == "thorough" {
				menu = append(menu, "", "%(a", "100%", "%(A)s$", "%(a)s%(b)s%(a)s")
			}
			st := len(menu) + 1
			slots := []string{"\x00a", "\x00b", "p\x00a", "p\x00b", "p.c\x00a", "p.c\x00b"}
			sets := []optSet{one()}
			radix := []int{1}
			for range slots {
				radix = append(radix, st)
			}
			doc := func(vals []int) string {
				var b strings.Builder
				last := ""
				for i, s := range slots {
					sec, key, _ := strings.Cut(s, "\x00")
					if sec != last {
						fmt.Fprintf(&b, "[%s]\n", sec)
						last = sec
					}
					if vals[i] > 0 {
						fmt.Fprintf(&b, "%s=%s\n", key, menu[vals[i]-1])
					}
				}
				return b.String()
			}
			graphs := core.Space{
				Name: "graphs", N: core.Prod(radix), Note: fmt.Sprintf("all %d^6 assignments to a,b in default, parent and child section", st),
				New: func(w *core.W) func(uint64) *core.Fail {
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, radix, m)
						return interpCase(w, &sets[0], doc(m[1:]), 0, false)
					}
				},
			}
			// options, mappers, deleted default section on four slots
			osets := []optSet{one(), one(oInsens), one(oInsKey), one(oShadow), one(oChild), one(oNonUniq)}
			m2 := []string{"v", "%(a)s", "%(b)s", "$", "%(A)s%(c)s", "%(b)s , %(a)s", "a\na=%(b)s"}
			slots2 := []string{"\x00a", "p\x00b", "p.c\x00a", "p.c\x00B"}
			radix2 := []int{len(osets), len(mappers), 2}
			for range slots2 {
				radix2 = append(radix2, len(m2)+1)
			}
			opts := core.Space{
				Name: "options-mappers", N: core.Prod(radix2), Note: "4 slots x 7 values x 6 option sets x 4 mappers x default section present or deleted",
				New: func(w *core.W) func(uint64) *core.Fail {
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, radix2, m)
						var b strings.Builder
						last := ""
						for j, s := range slots2 {
							sec, key, _ := strings.Cut(s, "\x00")
							if sec != last {
								fmt.Fprintf(&b, "[%s]\n", sec)
								last = sec
							}
							if m[3+j] > 0 {
								fmt.Fprintf(&b, "%s=%s\n", key, m2[m[3+j]-1])
							}
						}
						return interpCase(w, &osets[m[0]], b.String(), m[1], m[2] == 1)
					}
				},
			}
			// doubling and mutual cycles
			m3 := []string{"v", "%(a)s%(a)s", "%(b)s%(b)s", "%(c)s%(a)s%(b)s", "%(c)s", strings.Repeat("%(b)s", 40), strings.Repeat("z", 5000) + "%(a)s"}
			radix3 := []int{len(m3), len(m3), len(m3), 2}
			grow := core.Space{
				Name: "growth", N: core.Prod(radix3), Note: "all assignments of self-doubling and mutually doubling values to three keys",
				New: func(w *core.W) func(uint64) *core.Fail {
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, radix3, m)
						d := fmt.Sprintf("a=%s\nb=%s\nc=%s\n", m3[m[0]], m3[m[1]], m3[m[2]])
						if m[3] == 1 {
							d = fmt.Sprintf("a=%s\nb=%s\n[p]\nc=%s\n", m3[m[0]], m3[m[1]], m3[m[2]])
						}
						return interpCase(w, &sets[0], d, 0, false)
					}
				},
			}
			chains := core.Space{
				Name: "chains", N: 4 * 120, Note: "chains of 1..120 references, in one section, across default, and fan-out of 2",
				New: func(w *core.W) func(uint64) *core.Fail {
					return func(i uint64) *core.Fail {
						n := int(i/4) + 1
						var b strings.Builder
						for j := 0; j < n; j++ {
							switch i % 4 {
							case 0:
								fmt.Fprintf(&b, "k%d=%%(k%d)s\n", j, j+1)
							case 1:
								fmt.Fprintf(&b, "k%d=<%%(k%d)s>\n", j, j+1)
							case 2: // alternate sections
								if j%2 == 0 {
									fmt.Fprintf(&b, "[s]\nk%d=%%(k%d)s\n", j, j+1)
								} else {
									fmt.Fprintf(&b, "[DEFAULT]\nk%d=%%(k%d)s.\n", j, j+1)
								}
							case 3: // all references side by side
								if j == 0 {
									b.WriteString("all=")
									for l := 0; l < n; l++ {
										fmt.Fprintf(&b, "%%(k%d)s ", l)
									}
									b.WriteString("\n")
								}
								fmt.Fprintf(&b, "k%d=%d\n", j, j)
							}
						}
						fmt.Fprintf(&b, "k%d=end\n", n)
						return interpCase(w, &sets[0], b.String(), 0, false)
					}
				},
			}
			syn := words("a=", []string{"%", "(", ")", "s", "b", "%(b)s", "%(a)s", " "}, tier2(tier, 5, 6), "\nb=B\n[p]\na=%(b)s\n")
			syntax := core.Space{
				Name: "syntax", N: syn.n, Note: "every word of reference characters as a value",
				New: func(w *core.W) func(uint64) *core.Fail {
					var g genScratch
					return func(i uint64) *core.Fail {
						return interpCase(w, &sets[0], string(syn.gen(&g, i)), 0, false)
					}
				},
			}
			nam := words("a=%(", []string{"b", "B", " ", ".", "%", "(", ")s", "b c", "é", "\u00a0", "-", "#"}, tier2(tier, 4, 5), ")s\nb=1\nb c=2\n\"b.b\"=3\né=4\nB=5\n[p]\nb=6\n")
			names := core.Space{
				Name: "names", N: nam.n * uint64(len(osets)), Note: "every word of name characters inside a reference",
				New: func(w *core.W) func(uint64) *core.Fail {
					var g genScratch
					return func(i uint64) *core.Fail {
						n := uint64(len(osets))
						return interpCase(w, &osets[i%n], string(nam.gen(&g, i/n)), 0, false)
					}
				},
			}
			return []core.Space{graphs, opts, grow, chains, syntax, names, interpHistories(tier2(tier, 4, 5))}
		},
	})
	_ = ini.DefaultSection
}
