package checks

import "inimc/core"

func init() {
	register(&core.Check{
		ID:          "C10",
		Bound:       "key operations on names {k, l, K, \"\"} in sections s, s.t and DEFAULT, with key and section handles: all sequences of <=3 (4) of ~36 operations, of <=5 (6) of 12 core operations; breadth-first to depth 6 (8); programs over n keys and values (n to 70 or 300) in 10 name schemes",
		Assumptions: opsAssumptions,
		Spaces: func(tier string) []core.Space {
			all := []op{
				opHoldSection("s"), opHoldSection("s.t"), opHoldSection(""), opDelete("s"), opSection("s"), opDelete("s.t"),
				opNewKey("k", "1"), opNewKey("k", "2"), opNewKey("k", ""), opNewKey("l", "1"), opNewKey("", "1"), opNewKey("K", "9"), opNewBool("k"), opNewBool(""),
				opKey("k"), opKey("l"), opKey(""), opKey("K"), opGetKey("k"), opGetKey("zz"), opHasKey("k"), opHasKey("zz"),
				opDeleteKey("k"), opDeleteKey("l"), opDeleteKey("zz"), opDeleteKey("K"),
				opHoldKey("k"), opHoldKey("l"), opSet("3"), opSet(""), opSet("a;b"), opMustInt(7), opMustString("d"),
				opHasValue("1"), opHasValue("3"), opListKeys(), opAddShadow("1"), opAddNested("1"),
			}
			coreOps := []op{opNewKey("k", "1"), opNewKey("l", "2"), opKey("k"), opDeleteKey("k"), opHoldKey("k"), opSet("3"), opMustInt(7), opNewBool("l"), opHoldKey("l"), opDelete("s"), opHoldSection("s"), opSection("s"), opDeleteKey("l")}
			starts := []string{"[s]\nk=1\n[s.t]\nl=2\n", "[s]\n"}
			hold := func(ops []op) []op { return ops }
			return []core.Space{
				programSpace("many-keys", []optSet{one(), one(oInsKey), one(oShadow), one(oBool)}, starts[1], keyPrograms(tier2(tier, 70, 300)), nil),
				programSpace("named-keys", []optSet{one(), one(oInsKey), one(oShadow)}, starts[1], namePrograms(tier2(tier, 130, 300), false), nil),
				opsSpace("keys-all", []optSet{one(), one(oInsKey)}, starts, hold(all), tier2(tier, 3, 4)),
				opsSpaceFrom("keys-held", []optSet{one()}, starts, []op{opHoldSection("s")}, all, 3),
				opsSpaceFrom("keys-core", []optSet{one()}, starts, []op{opHoldSection("s")}, coreOps, tier2(tier, 5, 6)),
				opsBFS("keys-bfs", []optSet{one()}, starts, append([]op{}, coreOps...), tier2(tier, 6, 9), tier2(tier, 60000, 2000000)),
			}
		},
	})
	register(&core.Check{
		ID:          "C13",
		Bound:       "shadow operations: all sequences of <=4 (5) of 18 operations with shadows on/off, duplicates on/off; all documents of <=4 (5) of 13 lines; written and reloaded; 0..130 (520) shadows",
		Assumptions: opsAssumptions,
		Spaces: func(tier string) []core.Space {
			ops := []op{
				opNewKey("k", "1"), opNewKey("k", "2"), opNewKey("k", ""), opNewKey("l", "1"), opNewBool("b"), opNewKey("b", "x"),
				opHoldKey("k"), opHoldKey("b"), opHoldKey("#1"), opHoldKey("l"), opAddShadow("1"), opAddShadow("2"), opAddShadow("3"), opAddShadow(""), opSet("2"), opSet(""),
				opDeleteKey("k"), opNewKey("#1", "y"), opListKeys(),
			}
			sets := []optSet{one(oShadow), one(oShadow, oDup), one(), one(oShadow, oInsKey), one(oDup)}
			lines := []string{"k=1", "k=2", "k=", "k = 1", "K=3", "l=1", "[s]", "-=x", "b", "#1=z", "`#1`=w", "[t]", "k=a;c", "k=\"1\""}
			start := "[s]\n-=x\n"
			return []core.Space{
				programSpace("many-shadows", append(sets, one(oShadow, oNested), one(oNested)), "[s]\n", shadowPrograms(tier2(tier, 130, 520)), nil),
				parseSpace("scaled-shadows", with(optSets([]opt{oDup, oBool, oInsKey, oNonUniq, oNested, oPython, oInsens}, 2), oShadow), scaledTexts(tier2(tier, 130, 1100), "key*", "section*", "auto*", "nested*", "boolean")),
				opsSpaceFrom("shadow-ops", sets, []string{start}, []op{opHoldSection("s")}, ops, tier2(tier, 4, 5)),
				parseSpace("shadow-docs", with(optSets([]opt{oDup, oBool, oInsKey, oNonUniq, oNested}, 2), oShadow), lineDocs(lines, tier2(tier, 4, 4))),
				parseSpace("noshadow-docs", []optSet{one(), one(oDup), one(oBool)}, lineDocs(lines, tier2(tier, 4, 5))),
				parseSpace("shadow-lists", []optSet{one(oShadow), one(oShadow, oDup), one(oShadow, oInsens)}, lineDocs([]string{"k=a", "k=A", "k=ab", "k=b", "k=1", "k=01", "k=a b", "k=é", "k=", "K=b"}, tier2(tier, 5, 6))),
				roundTripDocs("shadow-roundtrip", with(optSets([]opt{oDup, oInsKey}, 1), oShadow), lineDocs([]string{"k=1", "k=2", "k=", "l=1", "[s]", "k=a b", "k=3 ;c", "m = \"x\"", "l=2"}, tier2(tier, 5, 6))),
			}
		},
	})
	register(&core.Check{
		ID:          "C25",
		Bound:       "non-unique section operations: all sequences of <=3 (4) of ~34 operations, <=5 (6) of 10 core operations; all documents of <=5 lines; breadth-first to depth 6 (8); programs over n sections of one or many names",
		Assumptions: opsAssumptions,
		Spaces: func(tier string) []core.Space {
			all := append(sectionOps([]string{"a", "b", ""}),
				opDeleteIndex("a", 0), opDeleteIndex("a", 1), opDeleteIndex("a", 2), opDeleteIndex("a", -1), opDeleteIndex("b", 0), opDeleteIndex("b", 1), opDeleteIndex("", 0), opDeleteIndex("zz", 0),
				opWithIndex("a", 0), opWithIndex("a", 1), opWithIndex("a", 5), opWithIndex("b", 0), opWithIndex("c", 0),
				opHoldIndex("a", 1), opNewKey("k", "1"), opNewKey("k", "2"), opDeleteKey("k"), opListKeys(), opListSections(), opChildren("a"), opChildren(""), opNewSections("b", "a.x"))
			cops := []op{opNewSection("a"), opNewSection("b"), opDeleteIndex("a", 0), opDeleteIndex("a", 1), opDeleteIndex("b", 0), opDelete("a"), opWithIndex("a", 1), opHoldIndex("a", 1), opNewKey("k", "1"), opSection("b"), opDeleteIndex("a", 2)}
			starts := []string{"", "[a]\nk=1\n[b]\n[a]\nk=2\n[c]\n[a]\nk=3\n"}
			sets := []optSet{one(oNonUniq), one(oNonUniq, oInsens)}
			lines := []string{"[a]", "[b]", "[A]", "k=1", "k=2", "l=3 ; c", "[a.x]", "# c", "[DEFAULT]", ""}
			return []core.Space{
				programSpace("many-sections", []optSet{one(oNonUniq), one(oNonUniq, oInsens), one()}, "", append(indexPrograms(tier2(tier, 70, 300)), sectionPrograms(tier2(tier, 40, 130))...), nil),
				programSpace("named-sections", []optSet{one(oNonUniq), one(oNonUniq, oInsens)}, "", namePrograms(tier2(tier, 66, 130), true), nil),
				parseSpace("scaled-nonunique", with(optSets([]opt{oInsSec, oShadow, oBool, oRaw}, 2), oNonUniq), scaledTexts(tier2(tier, 130, 1100), "section*", "raw*", "child*", "auto*")),
				opsSpace("nonunique-all", sets, starts, all, tier2(tier, 3, 4)),
				opsSpace("unique-all", []optSet{one()}, []string{"", "[a]\nk=1\n[b]\n"}, all, 3),
				opsSpace("nonunique-core", sets[:1], starts, cops, tier2(tier, 5, 6)),
				opsBFS("nonunique-bfs", sets[:1], starts, cops, tier2(tier, 6, 9), tier2(tier, 60000, 2000000)),
				parseSpace("nonunique-docs", with(optSets([]opt{oInsSec, oShadow}, 1), oNonUniq), lineDocs(lines, tier2(tier, 5, 6))),
				roundTripDocs("nonunique-roundtrip", []optSet{one(oNonUniq), one(oNonUniq, oInsSec)}, lineDocs(lines[:8], tier2(tier, 5, 6))),
			}
		},
	})
}
