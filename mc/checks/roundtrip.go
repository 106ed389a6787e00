package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// opHoldIndex remembers the handle of the i-th section of a name if it exists.
func opHoldIndex(n string, i int) op {
	return op{fmt.Sprintf("S=SectionsByName(%q)[%d]", n, i), func(x *world) (string, string) {
		x.ls, x.ms = nil, nil
		if l, err := x.lib.SectionsByName(n); err == nil && i < len(l) {
			x.ls = l[i]
		}
		if l := x.d.ByName(n); i < len(l) {
			x.ms = l[i]
		}
		return x.lsec(x.ls), x.msec(x.ms)
	}}
}

// opsSpaceFrom runs a fixed prefix of operations before every enumerated sequence.
func opsSpaceFrom(name string, sets []optSet, starts []string, prefix, ops []op, l int) core.Space {
	sp := opsSpace(name, sets, starts, ops, l)
	all := append(append([]op{}, ops...), prefix...)
	k := len(ops)
	nb := uint64(len(sets) * len(starts))
	sp.New = func(w *core.W) func(uint64) *core.Fail {
		var word, full []int
		return func(i uint64) *core.Fail {
			o := &sets[i%uint64(len(sets))]
			st := starts[i/uint64(len(sets))%uint64(len(starts))]
			word = core.Word(k, i/nb, word)
			full = full[:0]
			for j := range prefix {
				full = append(full, k+j)
			}
			full = append(full, word...)
			return runOps(w, o, st, all, full)
		}
	}
	return sp
}

// roundTripDocs loads every document, writes it and loads the output: same
// content, and the second output equals the first.
func roundTripDocs(name string, sets []optSet, t texts) core.Space {
	ns := uint64(len(sets))
	return core.Space{
		Name: name, N: ns * t.n,
		Note:  fmt.Sprintf("load, write, reload, write of %d documents x %d option sets", t.n, ns),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				text := t.gen(&g, i/ns)
				in := func() string { return fmt.Sprintf("round trip of %q with %s", text, o.name) }
				var res *core.Fail
				core.Guard(in, func() { res = roundTrip(w, o, text, in) })
				return res
			}
		},
	}
}

func roundTrip(w *core.W, o *optSet, text []byte, in func() string) *core.Fail {
	f, err := ini.LoadSources(o.o, text)
	w.Step(1)
	if err != nil {
		return nil // not a loadable document: nothing to write
	}
	if !writableNames(f) {
		return nil // the name of a boolean key can go over several lines, any can have both kinds of quotes: not representable
	}
	out := ref.Written(f, "")
	g, err := ini.LoadSources(o.o, []byte(out))
	w.Step(2)
	w.Trace()
	if err != nil {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("output %q loads", out), Got: err.Error()}
	}
	w.B1 = structure(w.B1[:0], f)
	w.B2 = structure(w.B2[:0], g)
	w.State(w.B1)
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q (output %q)", w.B1, out), Got: fmt.Sprintf("%q", w.B2)}
	}
	if again := ref.Written(g, ""); again != out {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("stable output %q", out), Got: fmt.Sprintf("%q", again)}
	}
	return nil
}

func writableNames(f *ini.File) bool {
	for _, s := range f.Sections() {
		for _, k := range s.KeyStrings() {
			if strings.Contains(k, "\n") || strings.Contains(k, "`") && strings.Contains(k, `"`) || strings.TrimSpace(k) != k {
				return false
			}
		}
	}
	return true
}

// structure is the ordered content without comments.
func structure(b []byte, f *ini.File) []byte {
	for _, s := range f.Sections() {
		b = append(b, fmt.Sprintf("[%q body=%q", s.Name(), s.Body())...)
		for _, k := range s.Keys() {
			b = append(b, fmt.Sprintf(" %q=%q+%q", k.Name(), k.ValueWithShadows(), k.NestedValues())...)
		}
		b = append(b, "]\n"...)
	}
	return b
}
