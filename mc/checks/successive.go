package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// What was done before, to another file or with other settings, must not matter.

// leftovers are documents that end, or fail, in every state of the parser.
func leftovers() []string {
	heads := []string{"", "# c\n", "k=1\n; c\n# d\n", "\xef\xbb\xbf- = 1\n-=2\n"}
	tails := []string{"", "[s]", "[s", "[]", "junk", "junk # d", "= v", "k = \"\"\"open\nx", "k = `open # e", "k=\n  n", "k = a\\", "k = v\n\tcont\n", "[a]\nbody\n", "`q", "\"\"\"x\"\"\" = y", "[s]\n-=3\nk = v ; e\n", "[S] # f\nK=\"q\\\"r\"\n", "\xef"}
	var out []string
	for _, h := range heads {
		for _, t := range tails {
			out = append(out, h+t)
		}
	}
	return out
}

// successiveLoads: after loading (or failing to load) any document, every other
// one loads as ever, and the first file is still what it was.
func successiveLoads(three bool) core.Space {
	docs := leftovers()
	sets := []optSet{one(), one(oBool, oShadow), one(oNested, oNonUniq), one(oPython, oUnescQ), one(oInsens, oRaw, oSkip), one(oSpace, oIgnCont, oDelimSp)}
	n := uint64(len(docs) * len(sets))
	total := n * n
	if three {
		total *= uint64(len(docs))
	}
	load := func(w *core.W, o *optSet, text string) (*ini.File, *ref.Doc, *core.Fail) {
		d := ref.New(o.o)
		merr := d.Parse(text)
		f, err := ini.LoadSources(o.o, []byte(text))
		w.Step(1)
		if a, b := ref.ModelErrClass(merr), ref.ErrClass(err); a != b {
			return nil, nil, &core.Fail{Want: "error class " + a, Got: fmt.Sprintf("%q (%v)", b, err)}
		}
		if merr != nil {
			return nil, nil, nil
		}
		return f, d, nil
	}
	same := func(w *core.W, f *ini.File, d *ref.Doc) *core.Fail {
		if f == nil {
			return nil
		}
		w.B1, w.B2 = d.Observe(w.B1[:0]), ref.Observe(w.B2[:0], f)
		w.State(w.B1)
		if !bytes.Equal(w.B1, w.B2) {
			return &core.Fail{Want: string(w.B1), Got: string(w.B2)}
		}
		return nil
	}
	return core.Space{
		Name: "successive-loads", N: total, Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("all ordered pairs (thorough: triples) of %d well-formed and malformed documents x %d option sets: the last one loads as the model prescribes, the first file stays as it is", len(docs), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) (res *core.Fail) {
				o1, o2 := &sets[i%uint64(len(sets))], &sets[i/uint64(len(sets))%uint64(len(sets))]
				x := i / uint64(len(sets)*len(sets))
				a, b := docs[x%uint64(len(docs))], docs[x/uint64(len(docs))%uint64(len(docs))]
				mid := ""
				if three {
					mid = docs[x/uint64(len(docs)*len(docs))]
				}
				in := func() string { return fmt.Sprintf("%s %q, then %q, then %s %q", o1.name, a, mid, o2.name, b) }
				core.Guard(in, func() {
					f, d, fl := load(w, o1, a)
					if three && fl == nil {
						_, _, fl = load(w, o2, mid)
					}
					var g *ini.File
					var e *ref.Doc
					if fl == nil {
						g, e, fl = load(w, o2, b)
					}
					if fl == nil {
						fl = same(w, g, e)
					}
					if fl == nil {
						fl = same(w, f, d)
					}
					w.Trace()
					if fl != nil {
						fl.Key, fl.Input = in(), in()
						res = fl
					}
				})
				return
			}
		},
	}
}

// successiveSplits: after splitting any value, every other one splits as ever.
func successiveSplits(l int) core.Space {
	t := words("", []string{"a", ",", " ", "\\", "||", "1"}, l)
	delims := []string{",", "||"}
	return core.Space{
		Name: "successive-values", N: t.n * t.n * 4, Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("all ordered pairs of %d values x 2 delimiters each: the second value splits as if the first had not been split", t.n),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g1, g2 genScratch
			f := ini.Empty()
			k1, _ := f.Section("").NewKey("a", "")
			k2, _ := ini.Empty().Section("").NewKey("b", "")
			return func(i uint64) (res *core.Fail) {
				d1, d2 := delims[i%2], delims[i/2%2]
				a, b := string(t.gen(&g1, i/4%t.n)), string(t.gen(&g2, i/4/t.n))
				in := func() string { return fmt.Sprintf("%q split by %q, then %q split by %q", a, d1, b, d2) }
				core.Guard(in, func() {
					k1.SetValue(a)
					k2.SetValue(b)
					_ = k1.Strings(d1)
					got, want := k2.Strings(d2), ref.Split(b, d2)
					w.Step(2)
					w.Trace()
					w.B1 = append(w.B1[:0], strings.Join(want, "\x00")...)
					w.State(w.B1)
					if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
						res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%q", got)}
					}
				})
				return
			}
		},
	}
}

// formatSwitch: the layout is that of the settings in force when the file is
// written, whatever it, or another file, was written with before.
func formatSwitch() core.Space {
	fs := formats(true)
	indents := []string{"", "\t", "  "}
	docs := writeDocs
	o := one(oRaw, oShadow, oNested)
	n := uint64(len(fs) * len(indents))
	return core.Space{
		Name: "format-switch", N: n * n * uint64(len(docs)*len(docs)), Serial: true, Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("all ordered pairs of %d documents x %d formats x %d indents, written one after another", len(docs), len(fs), len(indents)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var lib []*ini.File
			var mod []*ref.Doc
			for _, t := range docs {
				f, err := ini.LoadSources(o.o, []byte(t))
				if err != nil {
					panic(err)
				}
				d := ref.New(o.o)
				if err := d.Parse(t); err != nil {
					panic(err)
				}
				lib, mod = append(lib, f), append(mod, d)
			}
			want := map[[3]int]string{}
			return func(i uint64) (res *core.Fail) {
				a, b := int(i%uint64(len(docs))), int(i/uint64(len(docs))%uint64(len(docs)))
				i /= uint64(len(docs) * len(docs))
				fa, fb := int(i%uint64(len(fs))), int(i/uint64(len(fs))%uint64(len(fs)))
				i /= uint64(len(fs) * len(fs))
				ia, ib := int(i%uint64(len(indents))), int(i/uint64(len(indents)))
				in := func() string {
					return fmt.Sprintf("%q written with %s indent %q, then %q with %s indent %q", docs[a], fs[fa].name, indents[ia], docs[b], fs[fb].name, indents[ib])
				}
				k := [3]int{b, fb, ib}
				if _, ok := want[k]; !ok {
					want[k] = mod[b].Write(fs[fb].f, indents[ib])
				}
				core.Guard(in, func() {
					defer ref.DefaultFormat.Apply()
					fs[fa].f.Apply()
					_ = ref.Written(lib[a], indents[ia])
					fs[fb].f.Apply()
					got := ref.Written(lib[b], indents[ib])
					w.Step(2)
					w.Trace()
					w.B1 = append(w.B1[:0], got...)
					w.State(w.B1)
					if got != want[k] {
						res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", want[k]), Got: fmt.Sprintf("%q", got)}
					}
				})
				return
			}
		},
	}
}
