package checks

import "inimc/core"

var structSyms = []string{"a", "b", "=", ":", "[", "]", "\n", " ", "\"", "`", "-", "#"}

var docLines = []string{
	"a=1", "a = 2", "b:3", "A=4", "[a]", "[b]", "[A]", "[DEFAULT]", "[]", "[a", "junk", "=x", ":x", " = y", "",
	"-=p", "- = q", "`k=1`=v", "\"k:2\" : w", "\"\"\"k\"3\"\"\"=z", "\"open=1", "`open", "\"k\"", "# c", "  b=5", "[a.b] ; c", "x ? y - z", "k→v",
	"a  b = c d", "#1=n", "[ s ]", "[a]b]", "a=`m", "n`#", "t=\\", "\ta",
}

func init() {
	register(&core.Check{
		ID:    "C02",
		Bound: "documents: all words of <=5 (thorough 6) of 12 structural symbols, all <=3 (4) line documents over 36 line forms; options: default and all sets within 1-2 (2-3) deviations of 20; words of 3 (4) symbols of Unicode white space and control characters; 200 special words one or two at a time in every place of 22 templates; ~75 repetition and length templates at all sizes to 40 and around powers of two to 4096 (65536), and n names in 10 orders and likenesses",
		Assumptions: []string{
			"reference parser /verif/mc/ref encodes the documented grammar and is compared with the library on every enumerated document",
			"small-scope: longer documents and other alphabets behave like the enumerated ones",
		},
		Spaces: func(tier string) []core.Space {
			sp := []core.Space{
				parseSpace("chars", optSets(parseOpts, 1), words("", structSyms, tier2(tier, 4, 5))),
				parseSpace("chars-long", optSets(parseOpts, 0), words("", structSyms, tier2(tier, 6, 7))),
				parseSpace("keynames", optSets(parseOpts, 1), words("", []string{"k", "\"", "\"\"\"", "`", "=", ":", " ", "→", "-", "?"}, tier2(tier, 5, 6), "=v\n")),
				parseSpace("spaces", optSets(parseOpts, 1), words("", append([]string{"\n", "[", "]", ":"}, spaceSyms...), tier2(tier, 3, 4))),
				parseSpace("dictionary", optSets(parseOpts, tier2(tier, 2, 3)), dictDocs(false)),
				parseSpace("dictionary-pairs", append(optSets(parseOpts, tier2(tier, 0, 1)), one(oNested), one(oPython, oBool), one(oShadow, oBool, oNested), one(oRaw, oNonUniq, oInsens)), dictDocs(true)),
				parseSpace("lines2", optSets(parseOpts, tier2(tier, 3, 4)), lineDocs(docLines, 2)),
				parseSpace("lines3", optSets(parseOpts, tier2(tier, 1, 2)), lineDocs(docLines, 3)),
			}
			sp = append(sp, parseSpace("scaled", optSets(parseOpts, 1), scaledTexts(tier2(tier, 4200, 70000))))
			if tier == "thorough" {
				sp = append(sp, parseSpace("lines4", optSets(parseOpts, 1), lineDocs(docLines, 4)))
			}
			return sp
		},
	})
}
