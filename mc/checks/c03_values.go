package checks

import "inimc/core"

var valueSyms = []string{"a", " ", "#", ";", "\"", "`", "'", "\\", "\n", "=", "\"" + `""`, "\r", "\t"}

func init() {
	register(&core.Check{
		ID:    "C03",
		Bound: "values: all words of <=4 (5) of 13 symbols under all 128 value options, <=5 (6) under single deviations, each followed by end of input, a newline or another key; options limited to the 7 value options plus shadows/booleans/nested; words of 4 (5) white-space symbols; 200 special words in 22 templates under <=3 deviations; long and repeated tokens to 4096 (65536)",
		Assumptions: []string{
			"reference value decoder in /verif/mc/ref/parse.go encodes the documented quoting, comment and continuation rules",
			"small-scope: longer values behave like the enumerated ones",
		},
		Spaces: func(tier string) []core.Space {
			suf := []string{"", "\n", "\nz=9\n", "\n  z=9 ;c\n[s]\ny=`8`\n"}
			return []core.Space{
				parseSpace("scaled-values", optSets(valueOpts, tier2(tier, 2, 4)), scaledTexts(tier2(tier, 5000, 70000), "long-*", "quot*", "back*", "single*", "escaped*", "comment-symbols", "delimiters", "dashes", "returns", "continued*", "multibyte", "blanks", "brackets")),
				parseSpace("value-alloptions", optSets(valueOpts, 7), words("k=", valueSyms, tier2(tier, 3, 4), suf...)),
				parseSpace("value-spaces", optSets(valueOpts, tier2(tier, 1, 2)), words("k=", append([]string{"\n", "'", "\\", ";"}, spaceSyms...), tier2(tier, 4, 5), suf[2])),
				parseSpace("dictionary", optSets(valueOpts, tier2(tier, 3, 7)), dictDocs(false)),
				parseSpace("value-2dev", optSets(valueOpts, 2), words("k=", valueSyms, tier2(tier, 4, 5), suf...)),
				parseSpace("value-1dev", optSets(valueOpts, 1), words("k=", valueSyms, tier2(tier, 4, 5), suf[2])),
				parseSpace("value-default", optSets(valueOpts, 0), words("k = ", valueSyms, tier2(tier, 5, 6), suf[0], suf[2])),
				parseSpace("boolean-value", with(optSets(valueOpts, 2), oBool), words("", []string{"a", " ", "#", "\"", "`", "'", "\\", "\n", "\"\"\""}, tier2(tier, 5, 6), "", "\nz=9\n")),
				parseSpace("multiline", optSets(valueOpts, 3), lineDocs([]string{
					"k=`a", "k=\"\"\"a", "k=\"a", "k=a \\", "k='a", "b`", "b\"\"\"", "b\"", "b`  # c `d", "b \\", "b\\\\", "", "  x = \"y\\\"z\" ; e", "k=a\\;b\\#c", "k=a ;b #c", "k=\"a\" #c", "k='a;b'", "\\", "[s]", "k=\"a\"b\"", "k=\" a \"", "k=\"\"\"a\"\"\"b\"\"\"c", "k=`a`b`c", "k=`a`#c", "b\"\"\"#c\"\"\"d"}, tier2(tier, 3, 4))),
			}
		},
	})
}
