package checks

import (
	"bytes"
	"fmt"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// texts is a finite indexable family of documents.
type texts struct {
	n   uint64
	gen func(scratch *genScratch, i uint64) []byte
}

type genScratch struct {
	word []int
	buf  []byte
	mix  []int
}

// words: prefix + every word of up to l menu symbols + suffix.
func words(prefix string, menu []string, l int, suffixes ...string) texts {
	if len(suffixes) == 0 {
		suffixes = []string{""}
	}
	k := len(menu)
	n := core.WordsUpTo(k, l)
	return texts{n * uint64(len(suffixes)), func(g *genScratch, i uint64) []byte {
		suf := suffixes[i%uint64(len(suffixes))]
		g.word = core.Word(k, i/uint64(len(suffixes)), g.word)
		g.buf = append(g.buf[:0], prefix...)
		for _, s := range g.word {
			g.buf = append(g.buf, menu[s]...)
		}
		g.buf = append(g.buf, suf...)
		return g.buf
	}}
}

// lineDocs: every sequence of up to l menu lines, with and without a final newline.
func lineDocs(menu []string, l int) texts {
	k := len(menu)
	n := core.WordsUpTo(k, l)
	return texts{2 * n, func(g *genScratch, i uint64) []byte {
		g.word = core.Word(k, i/2, g.word)
		g.buf = g.buf[:0]
		for j, s := range g.word {
			if j > 0 {
				g.buf = append(g.buf, '\n')
			}
			g.buf = append(g.buf, menu[s]...)
		}
		if i%2 == 1 {
			g.buf = append(g.buf, '\n')
		}
		return g.buf
	}}
}

// diffParse loads text with o and compares with the model.
func diffParse(w *core.W, o *optSet, text []byte) *core.Fail {
	in := func() string { return fmt.Sprintf("LoadSources(%s, %q)", o.name, text) }
	d := ref.New(o.o)
	merr := d.Parse(string(text))
	var f *ini.File
	var err error
	core.Guard(in, func() { f, err = ini.LoadSources(o.o, text) })
	w.Step(1 + bytes.Count(text, []byte{'\n'}))
	w.Trace()
	if a, b := ref.ModelErrClass(merr), ref.ErrClass(err); a != b {
		return &core.Fail{Key: in(), Input: in(), Want: "error class " + fmt.Sprintf("%q", a), Got: fmt.Sprintf("%q (%v)", b, err)}
	}
	if merr != nil {
		w.B1 = append(w.B1[:0], "error "...)
		w.B1 = append(w.B1, merr.Error()...)
		w.State(w.B1)
		if f != nil {
			return &core.Fail{Key: in(), Input: in(), Want: "no file together with an error", Got: "a file"}
		}
		return nil
	}
	w.B1 = d.Observe(w.B1[:0])
	core.Guard(in, func() { w.B2 = ref.Observe(w.B2[:0], f) })
	w.State(w.B1)
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Key: in(), Input: in(), Want: string(w.B1), Got: string(w.B2)}
	}
	return nil
}

// parseSpace explores every text under every option set.
func parseSpace(name string, sets []optSet, t texts) core.Space {
	ns := uint64(len(sets))
	return core.Space{
		Name: name, N: ns * t.n,
		Note: fmt.Sprintf("%d documents x %d option sets, library load vs reference parser", t.n, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail {
				text := t.gen(&g, i/ns)
				fl := diffParse(w, &sets[i%ns], text)
				if i%1000003 == 77 {
					w.Sample(fmt.Sprintf("%s %q", sets[i%ns].name, text))
				}
				return fl
			}
		},
	}
}
