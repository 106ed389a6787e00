package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// world is a library file and the model document driven in lock step, with one
// remembered section handle and one remembered key handle on each side.
type world struct {
	lib *ini.File
	d   *ref.Doc
	ls  *ini.Section
	ms  *ref.Sec
	lk  *ini.Key
	mk  *ref.Key

	mapper int // the value mapper in force, see mappers
}

// op applies one operation to both sides and returns what each side answered.
type op struct {
	name string
	f    func(x *world) (lib, model string)
}

func newWorld(o *optSet, doc string) *world {
	x := &world{d: ref.New(o.o)}
	var err error
	if x.lib, err = ini.LoadSources(o.o, []byte(doc)); err != nil {
		panic(err)
	}
	if err = x.d.Parse(doc); err != nil {
		panic(err)
	}
	return x
}

// identities: position in the file, or detached.
func (x *world) lsec(s *ini.Section) string {
	if s == nil {
		return "nil"
	}
	for i, t := range x.lib.Sections() {
		if t == s {
			return s.Name() + "@" + strconv.Itoa(i)
		}
	}
	return s.Name() + "@gone"
}

func (x *world) msec(s *ref.Sec) string {
	if s == nil {
		return "nil"
	}
	for i, t := range x.d.Secs {
		if t == s {
			return s.Name + "@" + strconv.Itoa(i)
		}
	}
	return s.Name + "@gone"
}

func (x *world) lsecs(l []*ini.Section) string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = x.lsec(s)
	}
	return strings.Join(out, ",")
}

func (x *world) msecs(l []*ref.Sec) string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = x.msec(s)
	}
	return strings.Join(out, ",")
}

func (x *world) lkey(k *ini.Key) string {
	if k == nil {
		return "nil"
	}
	where := "gone"
	for i, s := range x.lib.Sections() {
		for j, t := range s.Keys() {
			if t == k {
				where = fmt.Sprintf("%d.%d", i, j)
			}
		}
	}
	return string(ref.ObserveKey(nil, k)) + "@" + where
}

func (x *world) mkey(k *ref.Key) string {
	if k == nil {
		return "nil"
	}
	where := "gone"
	for i, s := range x.d.Secs {
		for j, t := range s.Keys {
			if t == k {
				where = fmt.Sprintf("%d.%d", i, j)
			}
		}
	}
	return string(k.Observe(nil)) + "@" + where
}

func errs(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func b2s(b bool) string { return strconv.FormatBool(b) }

// --- section operations -------------------------------------------------

func opNewSection(n string) op {
	return op{fmt.Sprintf("NewSection(%q)", n), func(x *world) (string, string) {
		s, err := x.lib.NewSection(n)
		m, merr := x.d.NewSection(n)
		return x.lsec(s) + errs(err), x.msec(m) + errs(merr)
	}}
}

func opNewSections(ns ...string) op {
	return op{fmt.Sprintf("NewSections(%q)", ns), func(x *world) (string, string) {
		err := x.lib.NewSections(ns...)
		var merr error
		for _, n := range ns {
			if _, merr = x.d.NewSection(n); merr != nil {
				break
			}
		}
		return errs(err), errs(merr)
	}}
}

func opSection(n string) op {
	return op{fmt.Sprintf("Section(%q)", n), func(x *world) (string, string) {
		return x.lsec(x.lib.Section(n)), x.msec(x.d.Section(n))
	}}
}

func opGetSection(n string) op {
	return op{fmt.Sprintf("GetSection(%q)", n), func(x *world) (string, string) {
		s, err := x.lib.GetSection(n)
		m := x.d.First(n)
		me := "ok"
		if m == nil {
			me = "error"
		}
		return x.lsec(s) + errs(err), x.msec(m) + me
	}}
}

func opHasSection(n string) op {
	return op{fmt.Sprintf("HasSection(%q)", n), func(x *world) (string, string) {
		return b2s(x.lib.HasSection(n)), b2s(x.d.First(n) != nil)
	}}
}

func opByName(n string) op {
	return op{fmt.Sprintf("SectionsByName(%q)", n), func(x *world) (string, string) {
		l, err := x.lib.SectionsByName(n)
		m := x.d.ByName(n)
		me := "ok"
		if len(m) == 0 {
			me = "error"
		}
		return x.lsecs(l) + errs(err), x.msecs(m) + me
	}}
}

func opWithIndex(n string, i int) op {
	return op{fmt.Sprintf("SectionWithIndex(%q,%d)", n, i), func(x *world) (string, string) {
		return x.lsec(x.lib.SectionWithIndex(n, i)), x.msec(x.d.SectionWithIndex(n, i))
	}}
}

func opDelete(n string) op {
	return op{fmt.Sprintf("DeleteSection(%q)", n), func(x *world) (string, string) {
		x.lib.DeleteSection(n)
		x.d.Delete(n)
		return "", ""
	}}
}

func opDeleteIndex(n string, i int) op {
	return op{fmt.Sprintf("DeleteSectionWithIndex(%q,%d)", n, i), func(x *world) (string, string) {
		err := x.lib.DeleteSectionWithIndex(n, i)
		merr := x.d.DeleteIndex(n, i)
		return errs(err), errs(merr)
	}}
}

func opChildren(n string) op {
	return op{fmt.Sprintf("ChildSections(%q)", n), func(x *world) (string, string) {
		m := x.d.First(n)
		if m == nil {
			if n == "" {
				n = ini.DefaultSection
			}
			t := ref.New(x.d.O)
			t.Secs = x.d.Secs
			name, _ := ref.New(x.d.O).NewSection(n)
			m = &ref.Sec{D: t, Name: name.Name}
		}
		return x.lsecs(x.lib.ChildSections(n)), x.msecs(m.Children())
	}}
}

func opListSections() op {
	return op{"SectionStrings/Sections", func(x *world) (string, string) {
		var names []string
		for _, s := range x.d.Secs {
			names = append(names, s.Name)
		}
		return strings.Join(x.lib.SectionStrings(), ",") + "|" + x.lsecs(x.lib.Sections()), strings.Join(names, ",") + "|" + x.msecs(x.d.Secs)
	}}
}

// opHoldSection remembers a section handle (nil when it does not exist).
func opHoldSection(n string) op {
	return op{fmt.Sprintf("S=GetSection(%q)", n), func(x *world) (string, string) {
		x.ls, _ = x.lib.GetSection(n)
		x.ms = x.d.First(n)
		return x.lsec(x.ls), x.msec(x.ms)
	}}
}

// --- key operations on the held section (no-op when there is none) --------

func onSec(name string, f func(x *world) (string, string)) op {
	return op{name, func(x *world) (string, string) {
		if x.ls == nil || x.ms == nil {
			if (x.ls == nil) != (x.ms == nil) {
				return x.lsec(x.ls), x.msec(x.ms)
			}
			return "", ""
		}
		return f(x)
	}}
}

func opNewKey(n, v string) op {
	return onSec(fmt.Sprintf("S.NewKey(%q,%q)", n, v), func(x *world) (string, string) {
		k, err := x.ls.NewKey(n, v)
		m, merr := x.ms.NewKey(n, v)
		if merr != nil {
			return errs(err), errs(merr)
		}
		return x.lkey(k) + errs(err), x.mkey(m) + errs(merr)
	})
}

func opNewBool(n string) op {
	return onSec(fmt.Sprintf("S.NewBooleanKey(%q)", n), func(x *world) (string, string) {
		k, err := x.ls.NewBooleanKey(n)
		m, merr := x.ms.NewBool(n)
		if merr != nil {
			return errs(err), errs(merr)
		}
		return x.lkey(k) + errs(err), x.mkey(m) + errs(merr)
	})
}

func opKey(n string) op {
	return onSec(fmt.Sprintf("S.Key(%q)", n), func(x *world) (string, string) {
		return x.lkey(x.ls.Key(n)), x.mkey(x.ms.Key(n))
	})
}

func opGetKey(n string) op {
	return onSec(fmt.Sprintf("S.GetKey(%q)", n), func(x *world) (string, string) {
		k, err := x.ls.GetKey(n)
		m := x.ms.Get(n)
		me := "ok"
		if m == nil {
			me = "error"
		}
		return x.lkey(k) + errs(err), x.mkey(m) + me
	})
}

func opHasKey(n string) op {
	return onSec(fmt.Sprintf("S.HasKey(%q)", n), func(x *world) (string, string) {
		return b2s(x.ls.HasKey(n)) + b2s(x.ls.Haskey(n)), b2s(x.ms.Get(n) != nil) + b2s(x.ms.Get(n) != nil)
	})
}

func opDeleteKey(n string) op {
	return onSec(fmt.Sprintf("S.DeleteKey(%q)", n), func(x *world) (string, string) {
		x.ls.DeleteKey(n)
		x.ms.DeleteKey(n)
		return "", ""
	})
}

func opHasValue(v string) op {
	return onSec(fmt.Sprintf("S.HasValue(%q)", v), func(x *world) (string, string) {
		m := false
		for _, k := range x.ms.Keys {
			m = m || k.Value == v
		}
		return b2s(x.ls.HasValue(v)), b2s(m)
	})
}

func opListKeys() op {
	return onSec("S.Keys/KeyStrings/KeysHash/ParentKeys", func(x *world) (string, string) {
		var l, m []string
		for _, k := range x.ls.Keys() {
			l = append(l, x.lkey(k))
		}
		l = append(l, x.ls.KeyStrings()...)
		h := x.ls.KeysHash()
		for _, n := range core.SortedKeys(h) {
			l = append(l, n+"="+h[n])
		}
		for _, k := range x.ls.ParentKeys() {
			l = append(l, x.lkey(k))
		}
		var mh []string
		for _, k := range x.ms.Keys {
			m = append(m, x.mkey(k))
		}
		for _, k := range x.ms.Keys {
			m = append(m, k.Name)
			mh = append(mh, k.Name+"="+k.Value)
		}
		sort.Slice(mh, func(i, j int) bool { return strings.SplitN(mh[i], "=", 2)[0] < strings.SplitN(mh[j], "=", 2)[0] })
		m = append(m, mh...)
		for _, a := range x.ms.Ancestors() {
			for _, k := range a.Keys {
				m = append(m, x.mkey(k))
			}
		}
		return strings.Join(l, "\n"), strings.Join(m, "\n")
	})
}

// opHoldKey remembers a key handle of the held section.
func opHoldKey(n string) op {
	return onSec(fmt.Sprintf("K=S.GetKey(%q)", n), func(x *world) (string, string) {
		x.lk, _ = x.ls.GetKey(n)
		x.mk = x.ms.Get(n)
		return x.lkey(x.lk), x.mkey(x.mk)
	})
}

func onKey(name string, f func(x *world) (string, string)) op {
	return op{name, func(x *world) (string, string) {
		if x.lk == nil || x.mk == nil {
			return x.lkey(x.lk), x.mkey(x.mk)
		}
		a, b := f(x)
		return a + x.lkey(x.lk), b + x.mkey(x.mk)
	}}
}

func opSet(v string) op {
	return onKey(fmt.Sprintf("K.SetValue(%q)", v), func(x *world) (string, string) {
		x.lk.SetValue(v)
		x.mk.Value = v
		return "", ""
	})
}

func opMustInt(def int) op {
	return onKey(fmt.Sprintf("K.MustInt(%d)", def), func(x *world) (string, string) {
		r := x.lk.MustInt(def)
		v, err := strconv.ParseInt(x.mk.Value, 0, 64)
		m := int(v)
		if err != nil {
			m = def
			x.mk.Value = strconv.Itoa(def)
		}
		return strconv.Itoa(r), strconv.Itoa(m)
	})
}

func opMustString(def string) op {
	return onKey(fmt.Sprintf("K.MustString(%q)", def), func(x *world) (string, string) {
		r := x.lk.MustString(def)
		if x.mk.Value == "" {
			x.mk.Value = def
		}
		return r, x.mk.Value
	})
}

func opAddShadow(v string) op {
	return onKey(fmt.Sprintf("K.AddShadow(%q)", v), func(x *world) (string, string) {
		return errs(x.lk.AddShadow(v)), errs(x.mk.AddShadow(v))
	})
}

func opAddNested(v string) op {
	return onKey(fmt.Sprintf("K.AddNestedValue(%q)", v), func(x *world) (string, string) {
		return errs(x.lk.AddNestedValue(v)), errs(x.mk.AddNested(v))
	})
}

// final compares the complete states, and the written output.
func (x *world) final(w *core.W, f ref.Format) (string, string) {
	w.B1 = x.d.Observe(w.B1[:0])
	w.B2 = ref.Observe(w.B2[:0], x.lib)
	if !bytes.Equal(w.B1, w.B2) {
		return string(w.B2), string(w.B1)
	}
	if a, b := ref.Written(x.lib, ""), x.d.Write(f, ""); a != b {
		return "written " + a, "written " + b
	}
	if a, b := x.lkey(x.lk)+x.lsec(x.ls), x.mkey(x.mk)+x.msec(x.ms); a != b {
		return a, b
	}
	return "", ""
}

// opsSpace explores every operation sequence of exactly/at most depth l from each start.
func opsSpace(name string, sets []optSet, starts []string, ops []op, l int) core.Space {
	k := len(ops)
	nw := core.WordsUpTo(k, l)
	nb := uint64(len(sets) * len(starts))
	return core.Space{
		Name: name, N: nw * nb,
		Note:  fmt.Sprintf("all sequences of <=%d of %d operations from %d start documents x %d option sets, library vs model after every step", l, k, len(starts), len(sets)),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			var word []int
			return func(i uint64) *core.Fail {
				o := &sets[i%uint64(len(sets))]
				st := starts[i/uint64(len(sets))%uint64(len(starts))]
				word = core.Word(k, i/nb, word)
				return runOps(w, o, st, ops, word)
			}
		},
	}
}

func describe(o *optSet, start string, ops []op, word []int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s from %q:", o.name, start)
	for _, s := range word {
		b.WriteString(" " + ops[s].name + ";")
	}
	return b.String()
}

func runOps(w *core.W, o *optSet, start string, ops []op, word []int) (res *core.Fail) {
	in := func() string { return describe(o, start, ops, word) }
	core.Guard(in, func() {
		x := newWorld(o, start)
		w.Step(len(word))
		w.Trace()
		for j, s := range word {
			a, b := ops[s].f(x)
			if a != b {
				res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("step %d answers %q", j+1, b), Got: fmt.Sprintf("%q", a)}
				return
			}
		}
		if a, b := x.final(w, ref.DefaultFormat); a != b {
			res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", b), Got: fmt.Sprintf("%q", a)}
			return
		}
		w.State(w.B1)
	})
	return
}

// opsBFS explores the reachable joint states breadth first, merging states that
// are isomorphic as complete object graphs (library private state, model and handles).
func opsBFS(name string, sets []optSet, starts []string, ops []op, depth, maxStates int) core.Space {
	return core.Space{
		Name:  name,
		N:     0,
		Note:  fmt.Sprintf("breadth-first search over complete joint states, %d operations, depth <=%d or %d states per start", len(ops), depth, maxStates),
		Setup: ref.DefaultFormat.Apply,
		Run: func(w *core.W, stop func() bool) (*core.Fail, uint64, bool) {
			var n uint64
			full := true
			for si := range sets {
				for _, st := range starts {
					fl, c, ok := bfs(w, &sets[si], st, ops, depth, maxStates, stop)
					n += c
					full = full && ok
					if fl != nil {
						return fl, n, false
					}
				}
			}
			return nil, n, full
		},
	}
}
