package checks

import (
	"bytes"
	"fmt"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

var commentLines = []string{"# a", ";b", "#", "  ; c #d", "x=1", "y = 2 # i", "x=3;j", "[s]", "[s] # t", "[t];u", "", "y=`m", "n` # w", "z=\"q\" ; r", "-=1 #s", "junk # v", "=1", "x=\\ #c", "  z=4", "\t# ind", "[u # x] # y", "x='#1' #2"}

// parseSeq compares loading several in-memory sources with the model.
func parseSeq(w *core.W, o *optSet, docs [][]byte) *core.Fail {
	in := func() string { return fmt.Sprintf("LoadSources(%s, %q)", o.name, docs) }
	d := ref.New(o.o)
	var merr error
	for _, t := range docs {
		if merr = d.Parse(string(t)); merr != nil {
			break
		}
	}
	var f *ini.File
	var err error
	var rest []interface{}
	for _, t := range docs[1:] {
		rest = append(rest, t)
	}
	core.Guard(in, func() { f, err = ini.LoadSources(o.o, docs[0], rest...) })
	w.Step(len(docs))
	w.Trace()
	if a, b := ref.ModelErrClass(merr), ref.ErrClass(err); a != b {
		return &core.Fail{Key: in(), Input: in(), Want: "error class " + fmt.Sprintf("%q", a), Got: fmt.Sprintf("%q (%v)", b, err)}
	}
	if merr != nil {
		return nil
	}
	w.B1 = d.Observe(w.B1[:0])
	core.Guard(in, func() { w.B2 = ref.Observe(w.B2[:0], f) })
	w.State(w.B1)
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Key: in(), Input: in(), Want: string(w.B1), Got: string(w.B2)}
	}
	return nil
}

// seqSpace explores all sequences of n documents of a family under the option sets.
func seqSpace(name string, sets []optSet, t texts, n int) core.Space {
	ns := uint64(len(sets))
	total := ns
	for i := 0; i < n; i++ {
		total *= t.n
	}
	return core.Space{
		Name: name, N: total,
		Note: fmt.Sprintf("all sequences of %d sources out of %d documents x %d option sets", n, t.n, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			gs := make([]genScratch, n)
			docs := make([][]byte, n)
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				r := i / ns
				for j := range docs {
					docs[j] = t.gen(&gs[j], r%t.n)
					r /= t.n
				}
				return parseSeq(w, o, docs)
			}
		},
	}
}

func init() {
	cOpts := []opt{oIgnInl, oSpace, oBool, oSkip, oPreserve, oUnescQ, oUnescC, oPython, oNested, oShadow, oNonUniq, oIgnCont}
	register(&core.Check{
		ID:    "C04",
		Bound: "all documents of <=3 (4) of 22 comment-bearing lines under 12 options within 1-2 deviations; all words of <=5 (6) of 9 comment symbols; all pairs of 2-line sources; words of 3 (4) white-space symbols; repeated and long comments",
		Assumptions: []string{
			"reference parser encodes the attachment rules",
			"small-scope bound on lines and symbols",
		},
		Spaces: func(tier string) []core.Space {
			return []core.Space{
				parseSpace("scaled-comments", optSets(cOpts, tier2(tier, 2, 3)), scaledTexts(tier2(tier, 1100, 9000), "comment*", "long-comment", "long-value-comment", "blank*", "backslash-comment", "escaped-comments", "returns")),
				parseSpace("comment-lines3", optSets(cOpts, tier2(tier, 2, 3)), lineDocs(commentLines, 3)),
				parseSpace("comment-raw", with(optSets(cOpts, tier2(tier, 1, 2)), oRawS), lineDocs(commentLines, 3)),
				parseSpace("comment-lines4", optSets(cOpts, tier2(tier, 0, 1)), lineDocs(commentLines, 4)),
				parseSpace("comment-chars", optSets(cOpts, tier2(tier, 1, 2)), words("", []string{"#", ";", "a", "=", "\n", " ", "[s]", "`", "\\"}, 5, "", "\nk=v\n")),
				parseSpace("comment-chars6", optSets(cOpts, 0), words("", []string{"#", ";", "a", "=", "\n", " ", "[s]", "`"}, tier2(tier, 6, 7), "", "\nk=v\n")),
				parseSpace("comment-spaces", optSets(cOpts, 1), words("#", append([]string{"\n", ";", "[s]"}, spaceSyms...), tier2(tier, 3, 4), "", "\nk=v #c\n")),
				successiveLoads(false),
				seqSpace("two-sources", optSets(cOpts, 1), lineDocs(commentLines, tier2(tier, 1, 2)), 2),
			}
		},
	})
}
