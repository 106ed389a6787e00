package checks

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// Construction operations: applied by name to a library file and to the model.

func opDo(name string, lib func(f *ini.File), model func(d *ref.Doc)) op {
	return op{name, func(x *world) (string, string) {
		lib(x.lib)
		model(x.d)
		return "", ""
	}}
}

func opPut(sec, key, val string) op {
	return opDo(fmt.Sprintf("Section(%q).NewKey(%q,%q)", sec, key, val),
		func(f *ini.File) { _, _ = f.Section(sec).NewKey(key, val) },
		func(d *ref.Doc) { _, _ = d.Section(sec).NewKey(key, val) })
}

func opPutBool(sec, key string) op {
	return opDo(fmt.Sprintf("Section(%q).NewBooleanKey(%q)", sec, key),
		func(f *ini.File) { _, _ = f.Section(sec).NewBooleanKey(key) },
		func(d *ref.Doc) { _, _ = d.Section(sec).NewBool(key) })
}

func opPutShadow(sec, key, val string) op {
	return opDo(fmt.Sprintf("Section(%q).Key(%q).AddShadow(%q)", sec, key, val),
		func(f *ini.File) { _ = f.Section(sec).Key(key).AddShadow(val) },
		func(d *ref.Doc) { _ = d.Section(sec).Key(key).AddShadow(val) })
}

func opPutNested(sec, key, val string) op {
	return opDo(fmt.Sprintf("Section(%q).Key(%q).AddNestedValue(%q)", sec, key, val),
		func(f *ini.File) { _ = f.Section(sec).Key(key).AddNestedValue(val) },
		func(d *ref.Doc) { _ = d.Section(sec).Key(key).AddNested(val) })
}

func opSecComment(sec, c string) op {
	return opDo(fmt.Sprintf("Section(%q).Comment=%q", sec, c),
		func(f *ini.File) { f.Section(sec).Comment = c },
		func(d *ref.Doc) { d.Section(sec).Comment = c })
}

func opKeyComment(sec, key, c string) op {
	return opDo(fmt.Sprintf("Section(%q).Key(%q).Comment=%q", sec, key, c),
		func(f *ini.File) { f.Section(sec).Key(key).Comment = c },
		func(d *ref.Doc) { d.Section(sec).Key(key).Comment = c })
}

func opAnotherSection(sec string) op {
	return opDo(fmt.Sprintf("NewSection(%q)", sec),
		func(f *ini.File) { _, _ = f.NewSection(sec) },
		func(d *ref.Doc) { _, _ = d.NewSection(sec) })
}

func opRawSection(sec, body string) op {
	return opDo(fmt.Sprintf("NewRawSection(%q,%q)", sec, body),
		func(f *ini.File) { _, _ = f.NewRawSection(sec, body) },
		func(d *ref.Doc) {
			if s, err := d.NewSection(sec); err == nil {
				s.Raw, s.Body = true, body
			}
		})
}

func opDropKey(sec, key string) op {
	return opDo(fmt.Sprintf("Section(%q).DeleteKey(%q)", sec, key),
		func(f *ini.File) { f.Section(sec).DeleteKey(key) },
		func(d *ref.Doc) { d.Section(sec).DeleteKey(key) })
}

func opDropSection(sec string) op {
	return opDo(fmt.Sprintf("DeleteSection(%q)", sec),
		func(f *ini.File) { f.DeleteSection(sec) },
		func(d *ref.Doc) { d.Delete(sec) })
}

// build applies a word of operations to a world.
func build(w *core.W, o *optSet, start string, ops []op, word []int) *world {
	x := newWorld(o, start)
	for _, s := range word {
		ops[s].f(x)
	}
	w.Step(len(word))
	return x
}

// judge looks at a finished world; in renders the input.
type judge func(w *core.W, o *optSet, x *world, in func() string) *core.Fail

// buildSpace builds every file reachable by a word of at most l operations and judges it.
func buildSpace(name string, nf namedFormat, sets []optSet, start string, ops []op, l int, j judge) core.Space {
	ns := uint64(len(sets))
	k := len(ops)
	return core.Space{
		Name: name + "-" + nf.name, N: core.WordsUpTo(k, l) * ns, Setup: nf.f.Apply,
		Note: fmt.Sprintf("files built from %q by every sequence of up to %d of %d operations x %d option sets", start, l, k, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			var word []int
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				word = core.Word(k, i/ns, word)
				in := func() string {
					var b []string
					for _, s := range word {
						b = append(b, ops[s].name)
					}
					return fmt.Sprintf("%s with %s %s from %q", strings.Join(b, "; "), o.name, nf.name, start)
				}
				var fl *core.Fail
				core.Guard(in, func() { fl = j(w, o, build(w, o, start, ops, word), in) })
				return fl
			}
		},
	}
}
