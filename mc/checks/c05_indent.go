package checks

import (
	"bytes"
	"fmt"
	"strings"

	"inimc/core"
)

// alignSpace places a construct at every offset around the look-ahead window:
// filler comment bytes, then a value followed by indented lines of swept length.
func alignSpace(name string, sets []optSet, heads, tails []string, offs []int, lens []int) core.Space {
	radix := []int{len(sets), len(heads), len(tails), len(offs), len(lens)}
	return core.Space{
		Name: name, N: core.Prod(radix),
		Note: fmt.Sprintf("%d constructs x %d continuations placed at %d offsets with %d block lengths", len(heads), len(tails), len(offs), len(lens)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			var b bytes.Buffer
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				b.Reset()
				fill(&b, offs[m[3]])
				b.WriteString(strings.ReplaceAll(heads[m[1]], "@", strings.Repeat("v", lens[m[4]])))
				b.WriteString(tails[m[2]])
				return diffParse(w, &sets[m[0]], b.Bytes())
			}
		},
	}
}

// fill writes exactly n bytes of comment lines and blank lines (n >= 0).
func fill(b *bytes.Buffer, n int) {
	for n > 0 {
		l := n
		if l > 100 {
			l = 100
			if n-l == 0 {
				l = n
			}
		}
		if l == 1 {
			b.WriteByte('\n')
		} else {
			b.WriteString(strings.Repeat(" ", l-1))
			b.WriteByte('\n')
		}
		n -= l
	}
}

func span(lo, hi int) []int {
	var out []int
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}
	return out
}

func init() {
	lines := []string{"k=v", "k=", "k = ", "  a", "\tb = c", " ", "", "  # x", "[s]", "n=1 # y", "k=\"q\"", "\fz", "  [t]", "-=", "b", "  ; w", "k=\\", "m=`", "  `", "k=", "   k2=3 ;c"}
	iOpts := []opt{oPython, oNested, oBool, oIgnInl, oSpace, oUnescC, oShadow, oPreserve, oIgnCont, oSkip, oDebug, oUnescQ}
	register(&core.Check{
		ID:    "C05",
		Bound: "all documents of <=4 (5) of 21 lines with and without indentation under python/nested options (and deviations); indented blocks at every offset and of every length around the 4096-byte window, reader buffers of 4096 and 5000 bytes; nested and Python-style words of 4 (5) symbols; special words; repeated and deep indents",
		Assumptions: []string{
			"reference parser encodes the indentation rules without any look-ahead window",
			"small-scope bound on lines; window behaviour explored for the two buffer sizes",
		},
		Spaces: func(tier string) []core.Space {
			py := []optSet{one(oPython), one(oPython, oBuf)}
			heads := []string{
				"k=v\n  @\n", "k=v\n  @", "k=\n\t@\n  w\n", "k=@\n  w\n  x\n", "k=v\n  a\n  @\n  c\n", "k=v\n @\n @\n @\n",
				"k=v ; @\n  w\n", "k=v\n@\n",
			}
			tails := []string{"", "z=1\n", "[s]\nz=2", "  y\nz=3\n", "\nz=4\n"}
			sp := []core.Space{
				parseSpace("scaled-indents", with(optSets([]opt{oNested, oBool, oIgnInl, oSpace, oShadow, oIgnCont, oSkip, oBuf, oPreserve}, tier2(tier, 1, 2)), oPython), scaledTexts(tier2(tier, 5000, 70000), "indent*", "nested*", "long-nested", "blank*", "continued*", "long-continued", "comment*")),
				parseSpace("scaled-nested", with(optSets([]opt{oBool, oIgnInl, oSpace, oShadow, oIgnCont, oSkip, oDup, oNonUniq}, tier2(tier, 1, 2)), oNested), scaledTexts(tier2(tier, 5000, 70000), "indent*", "nested*", "long-nested", "blank*", "continued*", "comment*")),
				parseSpace("lines-default", optSets(nil, 0), lineDocs(lines, 4)),
				parseSpace("lines-python", with(optSets(nil, 0), oPython), lineDocs(lines, tier2(tier, 4, 5))),
				parseSpace("lines-nested", with(optSets(nil, 0), oNested), lineDocs(lines, tier2(tier, 4, 5))),
				parseSpace("lines-mixed", optSets(iOpts, tier2(tier, 2, 3)), lineDocs(lines, 3)),
				parseSpace("nested-chars", with(optSets([]opt{oPython, oIgnCont, oIgnInl, oShadow, oBool, oPreserve}, tier2(tier, 1, 2)), oNested), words("k=\n  ", []string{"a", "=", "\n", "  ", "[", "]", "-", "\"", "`", "\\", "#", "\u00a0"}, tier2(tier, 4, 5), "", "\n  y\nz=1")),
				parseSpace("nested-words", with(optSets([]opt{oPython, oIgnCont, oIgnInl, oShadow, oBool, oPreserve, oDup, oSkip}, tier2(tier, 2, 3)), oNested), lineDocs([]string{"k=", "k=\r", "[]", "  []", "  [s]", "  -", "  -=1", "  x", "\ty = 1", "  # c", "  \"q\"", "  =", "", "l=1"}, tier2(tier, 3, 4))),
				parseSpace("space-chars", with(optSets([]opt{oPython}, 1), oNested), words("k=", append([]string{"\n"}, spaceSyms...), tier2(tier, 4, 5), "\nz=1")),
				parseSpace("python-space-chars", []optSet{one(oPython)}, words("k=a\n", append([]string{"\n"}, spaceSyms...), tier2(tier, 4, 5), "b\nz=1")),
				parseSpace("dictionary", append(with(optSets(iOpts, tier2(tier, 1, 2)), oNested), with(optSets(iOpts, tier2(tier, 1, 2)), oPython)...), dictDocs(false)),
				parseSpace("chars", []optSet{one(oPython), one(oNested), one(oNested, oPython), one()}, words("k=", []string{"a", " ", "\t", "\n", "=", "\f", "\r", "#", "["}, tier2(tier, 5, 6), "", "\nz=1")),
			}
			dense := append(span(0, 2), span(4040, 4110)...)
			if tier == "thorough" {
				sp = append(sp,
					alignSpace("window-offset", py, heads, tails, append(span(3900, 4200), span(4900, 5100)...), []int{1, 3, 60}),
					alignSpace("window-length", py, heads, tails, []int{0, 1, 100}, append(span(3980, 4200), append(span(4900, 5100), span(8100, 8300)...)...)))
			} else {
				sp = append(sp,
					alignSpace("window-offset", py, heads, tails, append(dense, span(4970, 5010)...), []int{1, 60}),
					alignSpace("window-length", py, heads, tails, []int{0, 1}, append(span(4060, 4110), append(span(4980, 5010), 8192, 8193, 12288)...)))
			}
			return sp
		},
	})
}
