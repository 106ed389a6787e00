package checks

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// hierProbe compares every inheritance query on every section of a universe.
func hierProbe(w *core.W, x *world, universe, keys []string, in func() string) *core.Fail {
	cmp := func(q string, a, b string) *core.Fail {
		if a == b {
			return nil
		}
		return &core.Fail{Key: in(), Input: in() + " query " + q, Want: fmt.Sprintf("%q", b), Got: fmt.Sprintf("%q", a)}
	}
	for _, n := range universe {
		a, b := opChildren(n).f(x)
		if fl := cmp("ChildSections("+n+")", a, b); fl != nil {
			return fl
		}
		for _, s := range x.d.ByName(n) {
			_ = s
		}
		l, _ := x.lib.SectionsByName(n)
		m := x.d.ByName(n)
		if len(l) != len(m) {
			return cmp("SectionsByName("+n+")", x.lsecs(l), x.msecs(m))
		}
		for i := range l {
			x.ls, x.ms = l[i], m[i]
			if fl := cmp("S.ChildSections of "+n, x.lsecs(l[i].ChildSections()), x.msecs(m[i].Children())); fl != nil {
				return fl
			}
			a, b := opListKeys().f(x)
			if fl := cmp("keys and parent keys of "+n, a, b); fl != nil {
				return fl
			}
			for _, k := range keys {
				for _, o := range []op{opGetKey(k), opHasKey(k)} {
					a, b := o.f(x)
					if fl := cmp(n+": "+o.name, a, b); fl != nil {
						return fl
					}
				}
				if x.ms.Get(k) != nil { // found: Key returns it and creates nothing
					a, b := opKey(k).f(x)
					if fl := cmp(n+": Key("+k+")", a, b); fl != nil {
						return fl
					}
				}
			}
		}
	}
	w.Step(len(universe) * (3 + 3*len(keys)))
	w.Trace()
	x.ls, x.ms = nil, nil
	a, b := x.final(w, ref.DefaultFormat)
	w.State(w.B1)
	return cmp("final content", a, b)
}

func init() {
	register(&core.Check{
		ID:    "C11",
		Bound: "all files over 7 (9) nested section names where each is absent or holds any subset of two keys, in two orders, under 6 delimiters and insensitive/non-unique loading: every inheritance query on every name; all operation histories of <=4 (5) over nested names; chains of 0..64 levels",
		Assumptions: []string{
			"reference rule: nearest existing ancestor by dropping trailing components at the delimiter (first section of that name when names are not unique)",
			"small-scope: 7-9 names cover siblings, gaps in the chain, three levels, common prefixes and empty components",
		},
		Spaces: func(tier string) []core.Space {
			base := []string{"a", "a.b", "a.b.c", "ab", "a.bc", "a..b", ".a"}
			if tier == "thorough" {
				base = append(base, "b.c", "a.b.c.d")
			}
			sets := []optSet{one(), one(oChild), one(oInsens), one(oNonUniq)}
			for _, d := range []string{"::", "é", "ab", ".b"} {
				d := d
				sets = append(sets, one(opt{"ChildSectionDelimiter=" + d, func(o *ini.LoadOptions) { o.ChildSectionDelimiter = d }}))
			}
			// states: absent, {}, {k}, {l}, {k,l}; quick drops {k,l}
			st := tier2(tier, 4, 4)
			radix := []int{len(sets), 2}
			for range base {
				radix = append(radix, st)
			}
			keys := []string{"k", "l", "zz"}
			mkdoc := func(o *optSet, m []int) string {
				delim := "."
				if o.o.ChildSectionDelimiter != "" && len(o.o.ChildSectionDelimiter) < 3 && o.o.ChildSectionDelimiter != "ab" && o.o.ChildSectionDelimiter != ".b" {
					delim = o.o.ChildSectionDelimiter
				}
				var b strings.Builder
				b.WriteString("k=default\n")
				for j := range base {
					i := j
					if m[1] == 1 {
						i = len(base) - 1 - j
					}
					s := m[2+i]
					if s == 0 {
						continue
					}
					n := strings.ReplaceAll(base[i], ".", delim)
					if o.o.AllowNonUniqueSections && i%2 == 0 {
						fmt.Fprintf(&b, "[%s]\nl=first\n", n)
					}
					fmt.Fprintf(&b, "[%s]\n", n)
					if s&2 != 0 {
						fmt.Fprintf(&b, "k=k of %s\n", n)
					}
					if s == 3 {
						fmt.Fprintf(&b, "l=l of %s\n", n)
					}
				}
				return b.String()
			}
			shapes := core.Space{
				Name: "shapes", N: core.Prod(radix), Note: fmt.Sprintf("every file over %d names, each absent/empty/with k/with k and l, two orders, %d option sets: all queries on all names", len(base), len(sets)),
				New: func(w *core.W) func(uint64) *core.Fail {
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, radix, m)
						o := &sets[m[0]]
						doc := mkdoc(o, m)
						in := func() string { return fmt.Sprintf("%s %q", o.name, doc) }
						var fl *core.Fail
						core.Guard(in, func() {
							x := newWorld(o, doc)
							var uni []string
							seen := map[string]bool{}
							for _, n := range append(x.lib.SectionStrings(), "a", "zz", "") {
								if !seen[n] {
									seen[n] = true
									uni = append(uni, n)
								}
							}
							fl = hierProbe(w, x, uni, keys, in)
						})
						return fl
					}
				},
			}
			ops := []op{opSection("a"), opSection("a.b"), opSection("a.b.c"), opSection("ab"), opHoldSection("a"), opHoldSection("a.b"), opHoldSection("a.b.c"),
				opNewKey("k", "1"), opNewKey("k", "2"), opKey("k"), opDeleteKey("k"), opGetKey("k"), opHasKey("k"), opDelete("a"), opDelete("a.b"), opListKeys(), opChildren("a"), opChildren("a.b"), opHoldKey("k"), opSet("5")}
			starts := []string{"[a]\nk=1\n[a.b]\n[a.b.c]\nl=3\n", ""}
			return []core.Space{shapes,
				programSpace("deep", []optSet{one(), one(oInsens), one(oChild)}, "", deepPrograms(tier2(tier, 66, 130)), nil),
				opsSpace("inherit-ops", []optSet{one(), one(oShadow)}, starts, ops, tier2(tier, 4, 5)),
				opsBFS("inherit-bfs", []optSet{one()}, starts, ops, tier2(tier, 5, 8), tier2(tier, 40000, 1500000)),
			}
		},
	})
}
