package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// commentPlaces are the elements that can bear a comment. get returns nil when
// the element is missing.
type commentPlace struct {
	name string
	get  func(f *ini.File) *string
	opts []opt // needed for the element to exist
	doc  string
}

func secPlace(name string) func(f *ini.File) *string {
	return func(f *ini.File) *string {
		if s, err := f.GetSection(name); err == nil {
			return &s.Comment
		}
		return nil
	}
}

func keyPlace(sec, key string) func(f *ini.File) *string {
	return func(f *ini.File) *string {
		if s, err := f.GetSection(sec); err == nil {
			if k, err := s.GetKey(key); err == nil {
				return &k.Comment
			}
		}
		return nil
	}
}

const commentDoc = "d=1\n[s]\na=1\nb=`x # y`\n[t]\n[u.v]\nz=3\n"

var commentPlaces = []commentPlace{
	{"section s", secPlace("s"), nil, commentDoc},
	{"empty section t", secPlace("t"), nil, commentDoc},
	{"last section u.v", secPlace("u.v"), nil, commentDoc},
	{"first key", keyPlace("", "d"), nil, commentDoc},
	{"key s.a", keyPlace("s", "a"), nil, commentDoc},
	{"quoted key s.b", keyPlace("s", "b"), nil, commentDoc},
	{"last key", keyPlace("u.v", "z"), nil, commentDoc},
	{"key after another comment", keyPlace("s", "b"), nil, "; top\n[s]\n# first\na=1\nb=2\n# third\nc=3\n"},
	{"section after another comment", secPlace("t"), nil, "[s]\n# first\na=1\n[t]\n# third\nc=3\n"},
	{"key with shadows", keyPlace("s", "a"), []opt{oShadow}, "[s]\na=1\na=2\na=3\nb=1\n"},
	{"key after shadows", keyPlace("s", "b"), []opt{oShadow}, "[s]\na=1\na=2\na=3\nb=1\n"},
	{"boolean key", keyPlace("s", "b"), []opt{oBool}, "[s]\na=1\nb\nc\n"},
	{"key after boolean key", keyPlace("s", "c"), []opt{oBool}, "[s]\na=1\nb\nc=2\n"},
	{"auto-increment key", keyPlace("s", "#2"), nil, "[s]\n-=1\n-=2\n- = 3\n"},
	{"nested key", keyPlace("s", "b"), []opt{oNested}, "[s]\na=1\nb=\n  n1\n  n2\nc=2\n"},
	{"key after nested key", keyPlace("s", "c"), []opt{oNested}, "[s]\na=1\nb=\n  n1\n  n2\nc=2\n"},
	{"raw section", secPlace("a"), []opt{oRaw}, "[s]\nk=1\n[a]\nbody\n[t]\nk=1\n"},
	{"section after a raw section", secPlace("t"), []opt{oRaw}, "[s]\nk=1\n[a]\nbody\n[t]\nk=1\n"},
	{"second section of a name", func(f *ini.File) *string {
		if l, err := f.SectionsByName("s"); err == nil && len(l) == 2 {
			return &l[1].Comment
		}
		return nil
	}, []opt{oNonUniq}, "[s]\nk=1\n[s]\nk=1\n[t]\n"},
	{"default section", secPlace(""), nil, commentDoc},
	{"default section without keys", secPlace(""), nil, "[s]\na=1\n"},
	{"multi-line value", keyPlace("s", "b"), nil, "[s]\na=1\nb=\"\"\"x\n# y\n\"\"\"\nc=2\n"},
	{"continued value", keyPlace("s", "b"), nil, "[s]\na=1\nb=x \\\n y\nc=2\n"},
}

// commentText is the text of a comment: its lines, each without a leading
// comment symbol and blanks around it, and the symbol of each line.
func commentText(c string) string {
	if c == "" {
		return ""
	}
	var out []string
	for _, l := range strings.Split(c, "\n") {
		sym := ";"
		if l != "" && (l[0] == '#' || l[0] == ';') {
			sym, l = l[:1], l[1:]
		}
		out = append(out, sym+" "+strings.TrimSpace(l))
	}
	return strings.Join(out, "\n")
}

func commentSpace(nf namedFormat, indent string, devs int, t texts) core.Space {
	type cfg struct {
		p commentPlace
		o optSet
	}
	var cfgs []cfg
	for _, p := range commentPlaces {
		if strings.HasPrefix(p.name, "default section") && !nf.f.DefaultHeader {
			continue
		}
		for _, o := range with(optSets([]opt{oIgnInl, oSpace, oIgnCont, oInsens, oBool, oPython, oNested, oSkip, oUnescC, oPreserve, oShadow, oNonUniq}, devs), p.opts...) {
			if indent != "" && (strings.Contains(o.name, "Python") || strings.Contains(o.name, "Nested")) {
				continue // indentation has a meaning of its own
			}
			if strings.Contains(o.name, "Python") && p.name == "nested key" {
				continue
			}
			if strings.Contains(o.name, "IgnoreCont") && p.name == "continued value" {
				continue
			}
			cfgs = append(cfgs, cfg{p, o})
		}
	}
	nc := uint64(len(cfgs))
	return core.Space{
		Name: fmt.Sprintf("comments-%s%q-%d", nf.name, indent, devs), N: t.n * nc, Setup: nf.f.Apply,
		Note: fmt.Sprintf("%d comment texts on %d elements x options", t.n, nc),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail {
				c := &cfgs[i%nc]
				text := string(t.gen(&g, i/nc))
				in := func() string {
					return fmt.Sprintf("comment %q on %s of %q with %s %s indent %q", text, c.p.name, c.p.doc, c.o.name, nf.name, indent)
				}
				var fl *core.Fail
				core.Guard(in, func() { fl = commentCase(w, &c.o, c.p, text, indent) })
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// allComments lists the comments of all elements in order, normalised.
func allComments(f *ini.File) string {
	var b strings.Builder
	for _, s := range f.Sections() {
		fmt.Fprintf(&b, "[%q:%q", s.Name(), commentText(s.Comment))
		for _, k := range s.Keys() {
			fmt.Fprintf(&b, " %q:%q", k.Name(), commentText(k.Comment))
		}
		b.WriteString("]\n")
	}
	return b.String()
}

func commentCase(w *core.W, o *optSet, p commentPlace, text, indent string) *core.Fail {
	f, err := ini.LoadSources(o.o, []byte(p.doc))
	w.Step(3)
	w.Trace()
	if err != nil {
		return &core.Fail{Want: "loads", Got: err.Error()}
	}
	c := p.get(f)
	if c == nil {
		return &core.Fail{Want: p.name, Got: "missing"}
	}
	*c = text
	out := ref.Written(f, indent)
	if *c != text {
		return &core.Fail{Want: "comment unchanged by writing", Got: *c}
	}
	g, err := ini.LoadSources(o.o, []byte(out))
	if err != nil {
		return &core.Fail{Want: fmt.Sprintf("output %q loads", out), Got: err.Error()}
	}
	w.B1 = structure(w.B1[:0], f)
	w.B2 = structure(w.B2[:0], g)
	w.State([]byte(out))
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Want: fmt.Sprintf("%s (output %q)", w.B1, out), Got: string(w.B2)}
	}
	if a, b := allComments(f), allComments(g); a != b {
		return &core.Fail{Want: fmt.Sprintf("comments %s (output %q)", a, out), Got: b}
	}
	again := ref.Written(g, indent)
	h, err := ini.LoadSources(o.o, []byte(again))
	if err != nil {
		return &core.Fail{Want: fmt.Sprintf("output %q loads", again), Got: err.Error()}
	}
	if third := ref.Written(h, indent); third != again {
		return &core.Fail{Want: fmt.Sprintf("stable output %q", again), Got: fmt.Sprintf("%q", third)}
	}
	return nil
}

func init() {
	register(&core.Check{
		ID:    "C19",
		Bound: "all comment texts of up to 3 or 4 (4 or 5) of 11 symbols (letters, comment symbols, blanks, newline, brackets, delimiter, quotes, backslash) on 23 kinds of elements x layout presets x indents x option sets within one deviation; all documents of 3 (4) of 22 comment-bearing lines; white-space symbols; mixed-feature documents under 3 deviations; many and long comments",
		Spaces: func(tier string) []core.Space {
			var out []core.Space
			syms := []string{"a", "#", ";", " ", "\n", "[", "]", "=", "`", "\\", "\""}
			for i, nf := range formats(tier == "thorough") {
				l := tier2(tier, 3, 4)
				if i == 0 || nf.f.DefaultHeader && i == 3 {
					l++
				}
				for _, ind := range []string{"", "\t"} {
					out = append(out, commentSpace(nf, ind, 0, words("", syms, l)))
				}
				out = append(out, commentSpace(nf, "", 1, words("", syms, 3)))
			}
			csp := commentSpace(formats(false)[0], "", 1, words("", []string{"a", "#", "\n", " ", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\ufeff", "\x00", "\xff"}, tier2(tier, 3, 4)))
			csp.Name += "-spaces"
			out = append(out, csp)
			out = append(out, commentDocs("space-comments", with(optSets([]opt{oSpace, oBool, oPython}, 1), oSkip), words("#", append([]string{"\n", ";", "[s]"}, spaceSyms...), 3, "", "\nk=v\n", "\nk=v#\u00a0d\n")))
			out = append(out, commentDocs("scaled-comments", with(optSets([]opt{oSpace, oBool, oSkip, oPython, oShadow, oNonUniq, oInsens, oNested}, 1), oSkip), scaledTexts(tier2(tier, 1100, 9000))))
			out = append(out, commentDocs("mixed-comments", with(optSets([]opt{oBool, oPython, oShadow, oNonUniq, oInsens, oDup, oRaw, oPreserve, oUnescC, oIgnInl, oSpace, oIgnCont}, 3), oSkip), lineDocs([]string{"# c", "; d", "k=1", "k=2 ;e", "k", "-=1", "`#1`=x # f", "[s]", "[S] # g", "[a]", "k=`x", "y` # h", "K=3", "k # i", "  z=1 ; j", ""}, 3)))
			out = append(out, commentDocs("loaded-comments", with(optSets([]opt{oSpace, oBool, oSkip, oPython, oShadow, oNonUniq, oInsens, oNested}, 1), oSkip), lineDocs(commentLines, tier2(tier, 3, 4))))
			return out
		},
	})
}

// commentDocs loads every document, writes it and loads the output: all comments are kept.
func commentDocs(name string, sets []optSet, t texts) core.Space {
	ns := uint64(len(sets))
	return core.Space{
		Name: name, N: t.n * ns, Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("comments of %d loaded documents x %d option sets after writing and reloading", t.n, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				text := t.gen(&g, i/ns)
				in := func() string { return fmt.Sprintf("comments of %q with %s", text, o.name) }
				var fl *core.Fail
				core.Guard(in, func() {
					f, err := ini.LoadSources(o.o, text)
					w.Step(1)
					if err != nil || !writableNames(f) {
						return
					}
					out := ref.Written(f, "")
					h, err := ini.LoadSources(o.o, []byte(out))
					w.Step(2)
					w.Trace()
					w.State([]byte(out))
					if err != nil {
						fl = &core.Fail{Want: fmt.Sprintf("output %q loads", out), Got: err.Error()}
					} else if a, b := allComments(f), allComments(h); a != b {
						fl = &core.Fail{Want: fmt.Sprintf("comments %s (output %q)", a, out), Got: b}
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}
