package checks

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// buildBoth applies a small program to the library and to the model.
func rawCase(w *core.W, o *optSet, f ref.Format, name, body string, mode int) *core.Fail {
	in := func() string {
		return fmt.Sprintf("%s mode %d: section %q body %q, format %+v", o.name, mode, name, body, f)
	}
	fail := func(want, got interface{}) *core.Fail {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprint(want), Got: fmt.Sprint(got)}
	}
	var res *core.Fail
	core.Guard(in, func() {
		lib := ini.Empty(o.o)
		k, _ := lib.Section("pre").NewKey("p", "1")
		var sec *ini.Section
		d := ref.New(o.o)
		_ = d.Parse("")
		mk, _ := d.Section("pre").NewKey("p", "1")
		_, _ = k, mk
		var ms *ref.Sec
		switch mode {
		case 0: // new raw section
			var err error
			if sec, err = lib.NewRawSection(name, body); err != nil {
				res = fail("no error", err)
				return
			}
			ms, _ = d.NewSection(name)
			ms.Raw, ms.Body = true, body
		case 1: // replace the body of a raw section
			sec, _ = lib.NewRawSection(name, "old")
			sec.SetBody(body)
			ms, _ = d.NewSection(name)
			ms.Raw, ms.Body = true, body
		case 2: // refused on an ordinary section
			sec, _ = lib.NewSection(name)
			_, _ = sec.NewKey("q", "2")
			sec.SetBody(body)
			ms, _ = d.NewSection(name)
			_, _ = ms.NewKey("q", "2")
		case 3: // refused on an ordinary section without keys
			sec, _ = lib.NewSection(name)
			sec.SetBody(body)
			_, _ = d.NewSection(name)
		}
		_, _ = lib.Section("post").NewKey("r", "3")
		_, _ = d.Section("post").NewKey("r", "3")
		w.Step(5)
		w.B1 = d.Observe(w.B1[:0])
		w.B2 = ref.Observe(w.B2[:0], lib)
		w.State(w.B1)
		w.Trace()
		if !bytes.Equal(w.B1, w.B2) {
			res = fail(string(w.B1), string(w.B2))
			return
		}
		want := d.Write(f, "")
		got := ref.Written(lib, "")
		if want != got {
			res = fail(fmt.Sprintf("written %q", want), fmt.Sprintf("%q", got))
			return
		}
		if mode >= 2 || !plainBody(body) {
			return
		}
		back, err := ini.LoadSources(o.o, []byte(got))
		w.Step(1)
		if err != nil {
			res = fail("reload", err)
			return
		}
		for _, s := range lib.Sections() {
			b, err := back.GetSection(s.Name())
			if err != nil || b.Body() != s.Body() || strings.Join(b.KeyStrings(), ",") != strings.Join(s.KeyStrings(), ",") {
				res = fail(fmt.Sprintf("after reload of %q section %q body %q keys %q", got, s.Name(), s.Body(), s.KeyStrings()), fmt.Sprintf("err %v section %+v", err, b))
				return
			}
		}
	})
	return res
}

// plainBody: every line is neither blank, comment, header nor indented.
func plainBody(b string) bool {
	b = strings.TrimSuffix(b, "\n")
	if b == "" {
		return true
	}
	for i, l := range strings.Split(b, "\n") {
		if l == "" || strings.TrimLeftFunc(l, unicode.IsSpace) != l || strings.ContainsRune("#;[", rune(l[0])) {
			return false
		}
		_ = i
	}
	return true
}

func init() {
	lines := []string{"[a]", "[B]", "[b]", "[A]", "[c]", "  x = 1", "<1>=2;3", "junk", "", "# c", "k=v", " ]", "x`y", "[a] # d", "- \\", "tail  "}
	crlf := []string{"[a]\r", "[c]\r", "x\r", "\r", "# d\r", "k=v\r", "y", "\tq \r", "z\f", "\u00a0w\u00a0", "\u2028"}
	rOpts := []opt{oInsens, oInsSec, oBool, oSkip, oNonUniq, oPython, oNested, oShadow}
	register(&core.Check{
		ID:    "C24",
		Bound: "all documents of <=4 (5) of 16 lines with two declared raw sections, option deviations 1-2; all bodies of <=4 (5) of 9 symbols set through the API and round-tripped under every layout",
		Assumptions: []string{
			"reference parser and writer encode the raw-section rules",
			"round trip is required of bodies whose lines are not blank, indented, comments or headers (such lines are not representable)",
		},
		Spaces: func(tier string) []core.Space {
			sp := []core.Space{
				parseSpace("scaled-raw", with(optSets(rOpts, tier2(tier, 1, 2)), oRaw), scaledTexts(tier2(tier, 70000, 70000), "raw*", "long-raw", "comment*", "blank*", "sections*")),
				parseSpace("raw-lines", with(optSets(rOpts, 0), oRaw), lineDocs(lines, tier2(tier, 5, 5))),
				parseSpace("raw-lines-opts", with(optSets(rOpts, tier2(tier, 2, 3)), oRaw), lineDocs(lines, tier2(tier, 3, 4))),
				parseSpace("raw-white-space", []optSet{one(oRaw), one(oRaw, oInsens)}, lineDocs(crlf, tier2(tier, 5, 6))),
				rawListSpace(),
				seqSpace("raw-two-sources", []optSet{one(oRaw), one(oRaw, oInsens)}, lineDocs(lines, 2), 2),
			}
			if tier == "thorough" {
				sp = append(sp, parseSpace("raw-lines6", []optSet{one(oRaw)}, lineDocs(lines, 6)))
			}
			bodySyms := []string{"x", "\n", " ", "=", "#", "]", "[", "`", "é", "\r", "\u00a0", "\v"}
			oRawDef := opt{"UnparseableSections=[a,B,DEFAULT]", func(o *ini.LoadOptions) { o.UnparseableSections = []string{"a", "B", "DEFAULT"} }}
			sets := []optSet{one(oRawDef), one(oRawDef, oInsSec)}
			for _, nf := range formats(true) {
				nf := nf
				t := words("", bodySyms, tier2(tier, 4, 5))
				names := []string{"a", "B", "DEFAULT"}
				radix := []int{4, len(sets), len(names)}
				sp = append(sp, core.Space{
					Name: "raw-api-" + nf.name, N: t.n * core.Prod(radix),
					Note:  "bodies set by NewRawSection/SetBody, observed, written, reloaded",
					Setup: nf.f.Apply,
					New: func(w *core.W) func(uint64) *core.Fail {
						var g genScratch
						var m []int
						return func(i uint64) *core.Fail {
							m = core.Mixed(i, radix, m)
							body := string(t.gen(&g, i/core.Prod(radix)))
							return rawCase(w, &sets[m[1]], nf.f, names[m[2]], body, m[0])
						}
					},
				})
			}
			return sp
		},
	})
}

// rawListSpace: every list of declared names.
func rawListSpace() core.Space {
	names := []string{"a", "A", "b", "DEFAULT", "default", "", "é", "É", "a b", "[a", "a]"}
	docs := []string{"k=1\n[a]\nx\n[A]\ny\n[b]\nk=2\n[c]\nk=3\n", "[DEFAULT]\nk=1\n<2>\n[a]\n<1>\n", "[é]\nx\n[É]\ny\n[a]\nk=1\n", "[a b]\nx\n[ a ]\nk=1\n[a]\nk=1\n[b]\nz",
		"[DEFAULT]\nraw\n[a]\nx\n", "[default]\nonly\n",
		"[[a]\nx\n[a]]\nk=1\n", "x=1\n[default]\nraw\n[Default]\nk=1\n", "[a]\nx\n[b]\nk=1\n[a]\nz=2\n[A]\n<3>\n"}
	sets := with([]optSet{one(), one(oInsSec), one(oInsKey), one(oInsens), one(oNonUniq)}, oBool)
	sets = append(sets, one(), one(oInsens), one(oSkip))
	nw := core.WordsUpTo(len(names), 3)
	radix := []int{len(docs), len(sets)}
	return core.Space{
		Name: "raw-declared", N: nw * core.Prod(radix), Note: fmt.Sprintf("every list of <=3 of %d declared names x %d documents x %d option sets, written and loaded again", len(names), len(docs), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m, word []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				word = core.Word(len(names), i/core.Prod(radix), word)
				o := sets[m[1]]
				var list []string
				for _, x := range word {
					list = append(list, names[x])
				}
				o.o.UnparseableSections = list
				text := docs[m[0]]
				in := func() string { return fmt.Sprintf("%s UnparseableSections=%q %q", o.name, list, text) }
				w.Step(1)
				if fl := sameAsModel(w, &o, []byte(text), []byte(text), in); fl != nil {
					return fl
				}
				var fl *core.Fail
				core.Guard(in, func() {
					f, err := ini.LoadSources(o.o, []byte(text))
					if err != nil {
						return
					}
					d := ref.New(o.o)
					_ = d.Parse(text)
					for _, s := range d.Secs {
						if s.Raw && len(s.Keys) > 0 {
							return // keys before the header of the default section
						}
					}
					if want, got := d.Write(ref.DefaultFormat, ""), ref.Written(f, ""); want != got {
						fl = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("written %q", want), Got: fmt.Sprintf("%q", got)}
						return
					}
					fl = roundTrip(w, &o, []byte(text), in)
				})
				return fl
			}
		},
	}
}
