package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// representable is the domain of the round-trip property for values.
func representable(v string) bool {
	return !strings.Contains(v, "\r") && !(strings.Contains(v, "`") && strings.Contains(v, `"""`))
}

// reload writes f, loads the output with the same options, and compares.
func reload(w *core.W, o *optSet, f *ini.File, indent string, in func() string) *core.Fail {
	out := ref.Written(f, indent)
	g, err := ini.LoadSources(o.o, []byte(out))
	w.Step(2)
	w.Trace()
	if err != nil {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("output %q loads", out), Got: err.Error()}
	}
	w.B1 = structure(w.B1[:0], f)
	w.B2 = structure(w.B2[:0], g)
	w.State(w.B1)
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%s (output %q)", w.B1, out), Got: string(w.B2)}
	}
	if again := ref.Written(g, indent); again != out {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("stable output %q", out), Got: fmt.Sprintf("%q", again)}
	}
	return nil
}

// rtOpts are the load options under which round trips are explored; delimiter
// options come with a matching delimiter to write.
var rtOpts = []opt{oInsens, oInsSec, oInsKey, oIgnCont, oIgnInl, oSkip, oBool, oShadow, oDup, oNested, oPython,
	oSpace, oUnescQ, oUnescC, oPreserve, oNonUniq, oRaw,
	{"KeyValueDelimiters=?-", func(o *ini.LoadOptions) { o.KeyValueDelimiters, o.KeyValueDelimiterOnWrite = "?-", "?" }},
	{"KeyValueDelimiters=:→", func(o *ini.LoadOptions) { o.KeyValueDelimiters, o.KeyValueDelimiterOnWrite = ":→", "→" }},
	{"KeyValueDelimiterOnWrite=:", func(o *ini.LoadOptions) { o.KeyValueDelimiterOnWrite = ":" }},
}

var rtSyms = []string{"a", "`", " ", "\n", "=", ":", "#", ";", "\"", "'", "\\", "[", "]", "%", "\t", "-"}

// spaceSyms are the white space of Unicode and other characters that are
// easily mistaken for it or mishandled, with some of the syntax around them.
var spaceSyms = []string{"a", " ", "\t", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\u3000", "\ufeff", "\x00", "\xff", "\"", "`", "#", "="}

// rtWords is a space of round trips of documents built from one word.
func rtWords(name string, nf namedFormat, sets []optSet, t texts, ok func(string, *optSet) bool, build func(f *ini.File, v string)) core.Space {
	ns := uint64(len(sets))
	return core.Space{
		Name: name + "-" + nf.name, N: t.n * ns, Setup: nf.f.Apply,
		Note: fmt.Sprintf("write and reload of %d %s x %d option sets", t.n, name, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail {
				v := string(t.gen(&g, i/ns))
				o := &sets[i%ns]
				if !ok(v, o) {
					return nil
				}
				in := func() string { return fmt.Sprintf("%s %q with %s %s", name, v, o.name, nf.name) }
				var fl *core.Fail
				core.Guard(in, func() {
					f := ini.Empty(o.o)
					build(f, v)
					fl = reload(w, o, f, "", in)
				})
				return fl
			}
		},
	}
}

func init() {
	register(&core.Check{
		ID:    "C18",
		Bound: "values: all words of up to 4 (5) symbols, key and section names: of up to 3 (4), over 16 symbols incl. newline, blank, quotes, comment symbols, delimiters, backslash, brackets; files: all sequences of up to 4 (5) building operations per theme; every format preset x option sets within one deviation (two for values); white-space and special words as values, names and in documents; many and long elements; mixed-feature documents under 2 (3) deviations",
		Spaces: func(tier string) []core.Space {
			var out []core.Space
			sets := optSets(rtOpts, 1)
			for i, nf := range formats(tier == "thorough") {
				l := tier2(tier, 3, 4)
				if i == 0 {
					l++
				}
				out = append(out,
					rtWords("values", nf, sets, words("", rtSyms, l), func(v string, o *optSet) bool { return representable(v) },
						func(f *ini.File, v string) {
							_, _ = f.Section("").NewKey("d", v)
							_, _ = f.Section("s").NewKey("k", v)
							_, _ = f.Section("s").NewKey("after", "1")
							_, _ = f.Section("t").NewKey("k", "2")
						}),
					rtWords("keys", nf, sets, words("", rtSyms, tier2(tier, 3, 4)), representableKey,
						func(f *ini.File, v string) {
							_, _ = f.Section("").NewKey(v, "1")
							_, _ = f.Section("s").NewKey("before", "1")
							_, _ = f.Section("s").NewKey(v, "2")
							_, _ = f.Section("s").NewKey("after", "")
							_, _ = f.Section("t").NewKey(v, "")
						}),
					rtWords("sections", nf, sets, words("", rtSyms, tier2(tier, 3, 4)), representableSection,
						func(f *ini.File, v string) {
							_, _ = f.Section("").NewKey("a", "1")
							_, _ = f.Section(v).NewKey("k", "1")
							_, _ = f.Section("t").NewKey("k", "2")
						}),
				)
				judgeWith := func(indent string) judge {
					return func(w *core.W, o *optSet, x *world, in func() string) *core.Fail {
						return reload(w, o, x.lib, indent, in)
					}
				}
				bl := tier2(tier, 3, 4)
				if i == 0 {
					bl++
				}
				ops := []op{opPut("", "d", "1"), opPut("s", "a", "1"), opPut("s", "long name", ""), opPut("s", "a", "x\ny#"),
					opPut("s.t", "a", "3"), opAnotherSection("e"), opAnotherSection("DEFAULT"), opSecComment("s", "c"),
					opKeyComment("s", "a", "c1\nc2"), opDropKey("s", "a"), opDropSection("s")}
				if nf.f.DefaultHeader {
					// A comment of the default section needs its header.
					ops = append(ops, opSecComment("", "dc"))
				}
				for _, ind := range []string{"", "\t"} {
					out = append(out, buildSpace(fmt.Sprintf("build%q", ind), nf, optSets([]opt{oInsens, oShadow, oNonUniq}, 2), "", ops, bl, judgeWith(ind)))
				}
				aops := []op{opDropKey("s", "#1"), opDropKey("s", "#2"), opDropKey("s", "#3"), opPut("s", "#4", "x"), opPut("s", "#1", "y"), opPut("s", "#2", ""), opPutShadow("s", "#2", "z"),
					opPutBool("s", "#2"), opPut("s", "k", "true"), opPutBool("s", "k"), opPut("s", "k", "5"), opDropSection("s"), opPut("", "#1", "d")}
				out = append(out, buildSpace("numbered", nf, with(optSets([]opt{oShadow, oDup, oNonUniq, oInsens}, 2), oBool), "[s]\n-=1\n- = 2\n- = 3\n[t]\n-=4\n", aops, bl, judgeWith("")))
				out = append(out, builtSpace("scaled", nf, consistent(with(optSets([]opt{oInsens, oShadow, oDup, oNonUniq, oIgnCont, oIgnInl, oPython, oPreserve, rtOpts[len(rtOpts)-1], rtOpts[len(rtOpts)-2]}, tier2(tier, 1, 2)), oBool)), filePrograms(tier2(tier, 130, 1100)), judgeWith("")))
				sops := []op{opPut("s", "a", "1"), opPut("s", "a", "2"), opPut("", "a", "x #y"), opPutShadow("s", "a", "1"), opPutShadow("s", "a", "2"),
					opPutShadow("s", "a", "x\ny"), opPutShadow("", "a", " z "), opPutShadow("s", "b", "="), opPutShadow("s", "a", "")}
				out = append(out, buildSpace("shadows", nf, with(optSets([]opt{oDup, oIgnInl, oPreserve, oUnescC, oNested}, 2), oShadow), "", sops, bl+1, judgeWith("")))
				bops := []op{opPutBool("s", "a"), opPutBool("s", "b c"), opPutBool("s", "b#c"), opPutBool("s", "x=y"), opPutBool("s", "#1"), opPutBool("s", `q"r"`), opPut("s", "a", "1"),
					opPut("s", "a", "true"), opPutBool("", "[d]"), opPutBool("s", "'e'"), opPutBool("", "f\\"), opDropKey("s", "a"), opKeyComment("s", "a", "c")}
				out = append(out, buildSpace("boolean", nf, with(optSets([]opt{oIgnCont, oIgnInl, oSpace, oUnescQ, oUnescC, oPreserve, oPython}, 1), oBool), "", bops, bl, judgeWith("")))
				nops := []op{opPut("s", "a", ""), opPut("s", "b", "1"), opPutNested("s", "a", "x"), opPutNested("s", "a", "y = z"), opPutNested("s", "a", "[t]"), opPutNested("s", "a", "#h"),
					opPutNested("", "n", "x"), opPut("t", "a", ""), opPutNested("t", "a", "x")}
				out = append(out, buildSpace("nested", nf, with(optSets([]opt{oShadow, oBool, oInsens}, 2), oNested), "", nops, bl, judgeWith("")))
				rops := []op{opRawSection("a", "line 1\nline = 2\n"), opRawSection("B", "x\n"), opRawSection("a", ""), opPut("s", "k", "1"), opPut("c", "k", "2"), opSecComment("a", "c"), opPut("", "d", "1"), opDropSection("a")}
				out = append(out, buildSpace("raw", nf, with(optSets([]opt{oInsens, oNonUniq, oShadow}, 1), oRaw), "", rops, bl, judgeWith("")))
			}
			out = append(out,
				roundTripDocs("mixed-documents", without(consistent(optSets(rtOpts, tier2(tier, 2, 3))), "AllowNestedValues"), lineDocs([]string{"k=1", "K = true", "k", "-=1", "`#1`=x", "# c", "k=2 ;d", "[s]", "[S] # e", "[a]", "k=`x", "y`", "  k=3", "k=x\\", "\"q\" = \" z \"", "k='a;b' #c", "k=", "x#y", "a;b = c#d"}, tier2(tier, 3, 3))),
				roundTripDocs("numbered-documents", optSets([]opt{oShadow, oDup, oBool, oNonUniq, oInsKey}, 3), lineDocs([]string{"-=1", "- = 2", "`#1`=x", "`#2`=y", "`#3`", "k", "k=true", "k=5", "[s]", "# c", "`#1`=1"}, tier2(tier, 4, 5))),
				rtWords("space-values", formats(false)[0], optSets(rtOpts, 1), words("", spaceSyms, tier2(tier, 3, 4)), func(v string, o *optSet) bool { return representable(v) },
					func(f *ini.File, v string) {
						_, _ = f.Section("").NewKey("d", v)
						_, _ = f.Section("s").NewKey("k", v)
						_, _ = f.Section("s").NewKey("after", "1")
					}),
				rtWords("space-keys", formats(false)[0], optSets(rtOpts, 1), words("", spaceSyms, tier2(tier, 3, 4)), representableKey,
					func(f *ini.File, v string) {
						_, _ = f.Section("").NewKey(v, "1")
						_, _ = f.Section("s").NewKey(v, "2")
						_, _ = f.Section("s").NewKey("after", "")
					}),
				rtWords("space-sections", formats(false)[0], optSets(rtOpts, 1), words("", spaceSyms, tier2(tier, 3, 4)), representableSection,
					func(f *ini.File, v string) {
						_, _ = f.Section("").NewKey("a", "1")
						_, _ = f.Section(v).NewKey("k", "1")
						_, _ = f.Section("t").NewKey("k", "2")
					}),
				rtWords("dict-values", formats(false)[0], consistent(optSets(rtOpts, 2)), dict(), func(v string, o *optSet) bool { return representable(v) },
					func(f *ini.File, v string) {
						_, _ = f.Section("").NewKey("d", v)
						_, _ = f.Section("s").NewKey("k", v)
						_, _ = f.Section("s").NewKey("after", "1")
					}),
				rtWords("dict-keys", formats(false)[0], consistent(optSets(rtOpts, 2)), dict(), representableKey,
					func(f *ini.File, v string) {
						_, _ = f.Section("").NewKey(v, "1")
						_, _ = f.Section("s").NewKey(v, v)
						_, _ = f.Section("s").NewKey("after", "")
					}),
				rtWords("dict-sections", formats(false)[0], consistent(optSets(rtOpts, 2)), dict(), representableSection,
					func(f *ini.File, v string) {
						_, _ = f.Section("").NewKey("a", "1")
						_, _ = f.Section(v).NewKey("k", "1")
						_, _ = f.Section(v+".t").NewKey("k", "2")
					}),
				roundTripDocs("dictionary", without(consistent(optSets(rtOpts, tier2(tier, 1, 2))), "AllowNestedValues"), dictDocs(false)),
				roundTripDocs("space-documents", optSets(rtOpts, 1), words("k=1\n", spaceSyms, tier2(tier, 3, 4), "", "=1\n", "\n[s]\n")),
				roundTripDocs("scaled-documents", without(optSets(rtOpts, 1), "AllowNestedValues"), scaledTexts(tier2(tier, 1100, 9000))),
				rtWords("value-pairs", formats(false)[0], consistent(optSets(rtOpts, 2)), words("", rtSyms, tier2(tier, 2, 3)), func(v string, o *optSet) bool { return representable(v) },
					func(f *ini.File, v string) {
						_, _ = f.Section("s").NewKey("k", v)
						_, _ = f.Section("s").NewKey("after", "1")
					}),
				roundTripDocs("documents", without(optSets(rtOpts, 1), "AllowNestedValues"), words("", []string{"k=1\n", "k=`x\ny`\n", "- = a\n", "; c\n", "[s]\n", "[S.t] # d\n", "a b : \"x \"\n",
					"k=2 # c\n", "b\n", "  k = 3\n", "\n", "k=\n", "\"q=\" = '4'\n"}, tier2(tier, 4, 5))))
			return out
		},
	})
}

// representableKey is the domain for key names: one line without back-quotes
// and blanks around it; names of boolean keys must not be key-value pairs.
func representableKey(v string, o *optSet) bool {
	return v != "" && v != "-" && !strings.ContainsAny(v, "`\r\n") && strings.TrimSpace(v) == v
}

// representableSection is the domain for section names: one line, and not
// declared unparseable.
func representableSection(v string, o *optSet) bool {
	if v == "" || strings.ContainsAny(v, "\r\n") {
		return false
	}
	for _, u := range o.o.UnparseableSections {
		if strings.EqualFold(u, v) {
			return false
		}
	}
	return true
}

// consistent drops the sets that name several delimiters.
func consistent(sets []optSet) (out []optSet) {
	for _, s := range sets {
		if strings.Count(s.name, "KeyValueDelimiter") < 2 {
			out = append(out, s)
		}
	}
	return out
}

// without drops the sets with an option.
func without(sets []optSet, name string) (out []optSet) {
	for _, s := range sets {
		if !strings.Contains(s.name, name) {
			out = append(out, s)
		}
	}
	return out
}
