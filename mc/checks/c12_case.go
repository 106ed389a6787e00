package checks

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

func init() {
	register(&core.Check{
		ID:    "C12",
		Bound: "all histories of <=3 (4) of ~50 operations and breadth-first search over case variants of names under the 4 (+combinations) insensitivity settings; all <=4 (5) line documents over case variants; interpolation, inheritance and struct mapping queries for every case variant pair",
		Assumptions: []string{
			"folding is strings.ToLower (as documented: forced to lower case)",
			"reference model of C09/C10/C02",
		},
		Spaces: func(tier string) []core.Space {
			sets := []optSet{one(), one(oInsSec), one(oInsKey), one(oInsens), one(oInsSec, oInsKey)}
			nsets := with(sets, oNonUniq)
			ops := []op{}
			for _, n := range []string{"s", "S", "DEFAULT", "Default", ""} {
				ops = append(ops, opSection(n), opGetSection(n), opHoldSection(n), opDelete(n), opByName(n))
			}
			ops = append(ops, opNewSection("S"), opNewSection("s"), opNewSection("É"), opHasSection("é"), opHasSection("S"), opDeleteIndex("S", 0), opWithIndex("S", 0), opChildren("S"), opNewSections("S.C"))
			for _, n := range []string{"k", "K"} {
				ops = append(ops, opNewKey(n, "1"), opNewKey(n, "2"), opKey(n), opGetKey(n), opHasKey(n), opDeleteKey(n), opNewBool(n), opHoldKey(n))
			}
			ops = append(ops, opKey("É"), opGetKey("é"), opListKeys(), opSet("9"), opListSections())
			starts := []string{"K=0\n[S]\nK=1\nk=2\n[s.Sub]\nl=3\n", ""}
			bops := []op{opSection("s"), opSection("S"), opDelete("s"), opDelete("S"), opHoldSection("s"), opHoldSection("S"), opHoldSection(""), opNewKey("k", "1"), opNewKey("K", "2"), opDeleteKey("k"), opDeleteKey("K"), opHoldKey("k"), opHoldKey("K"), opSet("3"), opKey("K"), opDelete("default"), opSection("")}
			lines := []string{"[s]", "[S]", "[DEFAULT]", "[Default]", "k=1", "K=2", "É=3", "é=4", "\"K\"=5", "B", "-=x", "[S.C] # c", "K:6"}
			// letters whose lower case, upper case and folding do not go together
			odd := []string{"ſ", "s", "S", "K", "k", "K", "İ", "i", "I", "ı", "i\u0307", "ς", "σ", "Σ", "Å", "å", "ẞ", "ß", "ǅ", "ǆ", "Ǆ", "É", "É", "é", "µ", "μ", "Ω", "ω", "\xff", "\xfe"}
			var sops, kops []op
			var slines, klines []string
			for _, n := range odd {
				sops = append(sops, opNewSection(n), opHasSection(n), opGetSection(n), opDelete(n), opSection(n), opByName(n))
				kops = append(kops, opNewKey(n, "1"), opGetKey(n), opHasKey(n), opDeleteKey(n), opKey(n), opNewBool(n))
				slines = append(slines, "["+n+"]\nx=1")
				klines = append(klines, n+"=1", n)
			}
			slines, klines = append(slines, "y=2"), append(klines, "r=%("+odd[0]+")s")
			return []core.Space{
				parseSpace("scaled-folded", with(append(append([]optSet{}, sets...), nsets...), oBool), scaledTexts(tier2(tier, 9000, 70000), "*folded", "keys-folded", "sections-folded", "long-key", "long-section", "multibyte", "long-flag", "auto*")),
				opsSpace("fold-sections", sets, []string{""}, sops, 2),
				opsSpaceFrom("fold-keys", sets, []string{"[s]\nx=0\n"}, []op{opHoldSection("s")}, kops, 2),
				parseSpace("fold-section-docs", sets, lineDocs(slines, tier2(tier, 2, 3))),
				parseSpace("fold-key-docs", with(sets, oBool), lineDocs(klines, tier2(tier, 2, 3))),
				opsSpace("case-ops", sets, starts, ops, tier2(tier, 3, 3)),
				opsSpaceFrom("case-key-ops", sets, starts, []op{opHoldSection("S")}, bops, tier2(tier, 4, 5)),
				opsBFS("case-bfs", sets, starts, bops, tier2(tier, 5, 7), tier2(tier, 20000, 400000)),
				opsSpace("case-nonunique", nsets, starts, append(bops, opDeleteIndex("S", 1), opDeleteIndex("s", 0), opWithIndex("S", 1)), 3),
				parseSpace("case-docs", with(sets, oBool), lineDocs(lines, tier2(tier, 4, 5))),
				parseSpace("case-docs-shadow", with(append(append([]optSet{}, sets...), nsets...), oShadow), lineDocs(lines, tier2(tier, 3, 4))),
				caseQueries(sets),
			}
		},
	})
}

type caseInner struct {
	K  string
	K2 string `ini:"Key2"`
}

type caseOuter struct {
	K   string
	Sub caseInner
	S2  *caseInner `ini:"SEC"`
}

// caseQueries: references, inheritance and struct mapping for all case variants.
func caseQueries(sets []optSet) core.Space {
	va := []string{"key", "Key", "KEY"}
	vs := []string{"sub", "Sub", "SUB"}
	vf := []string{"k", "K"}
	vx := []string{"sec", "SEC", "Sec"}
	radix := []int{len(sets), len(va), len(va), len(vs), len(vf), len(vx), 2}
	return core.Space{
		Name: "case-queries", N: core.Prod(radix), Note: "interpolation, inheritance and MapTo for every combination of case variants of the names involved",
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				o := &sets[m[0]]
				defName, refName, sec, fld, xsec := va[m[1]], va[m[2]], vs[m[3]], vf[m[4]], vx[m[5]]
				doc := fmt.Sprintf("%s=dv\n%s=top\n[%s]\n%s=in\nKEY2=k2\nr=%%(%s)s\n[%s]\nKey2=x2\n[%s.Child]\nq=%%(%s)s\n", defName, fld, sec, fld, refName, xsec, strings.ToUpper(sec), fld)
				if m[6] == 1 {
					doc = fmt.Sprintf("[%s]\n%s=in\nKEY2=k2\nr=%%(%s)s\n[DEFAULT]\n%s=dv\n%s=top\n[%s]\nKey2=x2\n[%s.Child]\nq=%%(%s)s\n", sec, fld, refName, defName, fld, xsec, strings.ToUpper(sec), fld)
				}
				in := func() string { return fmt.Sprintf("%s %q", o.name, doc) }
				var res *core.Fail
				core.Guard(in, func() {
					x := newWorld(o, doc)
					w.Step(6)
					w.Trace()
					chk := func(q, got, want string) {
						if res == nil && got != want {
							res = &core.Fail{Key: in(), Input: in() + " " + q, Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%q", got)}
						}
					}
					for _, s := range x.d.Secs {
						for _, k := range s.Keys {
							want, _ := k.Transform(k.Value, nil)
							ls, err := x.lib.GetSection(s.Name)
							if err != nil {
								chk("GetSection", err.Error(), "")
								return
							}
							chk(s.Name+"."+k.Name+" as string", ls.Key(k.Name).String(), want)
						}
					}
					var v caseOuter
					if err := x.lib.MapTo(&v); err != nil {
						chk("MapTo", err.Error(), "")
						return
					}
					val := func(s *ref.Sec, n string) string {
						if s != nil {
							if k := s.Get(n); k != nil {
								r, _ := k.Transform(k.Value, nil)
								return r
							}
						}
						return ""
					}
					chk("mapped K", v.K, val(x.d.First(""), "K"))
					chk("mapped Sub.K", v.Sub.K, val(x.d.First("Sub"), "K"))
					chk("mapped Sub.K2", v.Sub.K2, val(x.d.First("Sub"), "Key2"))
					s2 := ""
					if v.S2 != nil {
						s2 = v.S2.K2
					}
					chk("mapped S2", s2, val(x.d.First("SEC"), "Key2"))
					chk("S2 set", b2s(v.S2 != nil), b2s(x.d.First("SEC") != nil))
					for _, variant := range []string{"", ini.DefaultSection, "default", "DeFault"} {
						chk("default as "+variant, x.lsec(secOrNil(x.lib, variant)), x.msec(x.d.First(variant)))
					}
					a, b := x.final(w, ref.DefaultFormat)
					chk("final", a, b)
					w.State(w.B1)
				})
				return res
			}
		},
	}
}

func secOrNil(f *ini.File, n string) *ini.Section {
	s, _ := f.GetSection(n)
	return s
}
