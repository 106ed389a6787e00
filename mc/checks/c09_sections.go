package checks

import "inimc/core"

var opsAssumptions = []string{
	"the list model /verif/mc/ref/doc.go is the documented meaning of the operations; every answer and the complete observable state are compared after every step",
	"merging isomorphic states ignores slice capacities (spare backing-array contents); the unmerged enumeration up to its depth does not",
	"small-scope: longer histories and other names behave like the enumerated ones",
}

func sectionOps(names []string) []op {
	var ops []op
	for _, n := range names {
		ops = append(ops, opNewSection(n), opSection(n), opGetSection(n), opDelete(n))
	}
	for _, n := range names {
		ops = append(ops, opByName(n), opHoldSection(n))
	}
	return ops
}

func init() {
	register(&core.Check{
		ID:          "C09",
		Bound:       "section operations on names {a, b, a.b, \"\", DEFAULT, A}: all sequences of <=3 (4) of ~40 operations, of <=5 (6) of 11 core operations; breadth-first to closure or depth 7 (9); programs over n sections (n to 64 or 300) in 10 name schemes",
		Assumptions: opsAssumptions,
		Spaces: func(tier string) []core.Space {
			all := append(sectionOps([]string{"a", "b", "a.b", "", "DEFAULT", "A"}),
				opHasSection("a"), opHasSection(""), opHasSection("zz"), opListSections(), opChildren("a"), opChildren("zz"), opChildren(""),
				opNewSections("b", "c"), opNewSections("c", "", "d"), opDeleteIndex("a", 0), opDeleteIndex("a", 1), opDeleteIndex("", 0), opWithIndex("a", 0), opWithIndex("b", 2),
				opNewKey("k", "1"), opDeleteKey("k"), opListKeys())
			core9 := []op{opNewSection("a"), opSection("b"), opNewSection("c"), opDelete("a"), opDelete("b"), opDelete(""), opSection(""), opHoldSection("a"), opNewKey("k", "1"), opDeleteIndex("b", 0), opChildren("zz"), opGetSection("c")}
			starts := []string{"", "x=1\n[a]\ny=2\n[b]\n"}
			sets := []optSet{one(), one(oInsens)}
			return []core.Space{
				programSpace("many-sections", sets, starts[0], sectionPrograms(tier2(tier, 70, 300)), nil),
				programSpace("named-sections", sets, starts[0], namePrograms(tier2(tier, 130, 300), true), nil),
				programSpace("many-sections-nonunique", []optSet{one(oNonUniq)}, starts[0], sectionPrograms(tier2(tier, 41, 130)), nil),
				opsSpace("sections-all", sets, starts, all, tier2(tier, 3, 4)),
				opsSpace("sections-core", sets[:1], starts, core9, tier2(tier, 5, 6)),
				opsBFS("sections-bfs", sets, starts, core9, tier2(tier, 7, 12), tier2(tier, 60000, 2000000)),
			}
		},
	})
}
