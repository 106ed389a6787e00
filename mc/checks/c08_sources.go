package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// source outcomes of the model: content, missing, or broken.
type msrc struct {
	kind    string // "ok", "missing", "broken"
	content string
}

// modelReload applies one (re)load of a source list to the model; ok is false when it must fail.
func modelReload(d *ref.Doc, srcs []msrc) bool {
	d.StartLoad()
	for _, s := range srcs {
		switch s.kind {
		case "missing":
			if !d.O.Loose {
				return false
			}
			_ = d.Parse("")
			continue
		case "broken":
			return false
		}
		if d.Parse(s.content) != nil {
			return false
		}
		if d.O.ShortCircuit {
			return true
		}
	}
	return true
}

var srcMenu = []string{
	"a=1\n[s]\nk=x ; c1\n", "[s]\nk=y\nl=2\n", "", "# h\n[t]\nm=3\n[s]\nn=4 # q\n", "[bad\n", "a=`2\n3`\n[u]\n", "[S]\nK=z\n", "[s]\n[s]\nk=w\nk=v\n", "b\n", "[t.x]\nk=1\n[s] ;sc\n",
}

func init() {
	exts := []optSet{one(), one(oShadow), one(oShadow, oDup), one(oNonUniq), one(oNested), one(oRaw), one(oInsens), one(oBool), one(oBool, oShadow), one(oPython), one(oSkip), one(oNonUniq, oShadow, oNested)}
	var sets []optSet
	for _, e := range exts {
		for k := 0; k < 4; k++ {
			s := e
			if k&1 == 1 {
				s = with([]optSet{s}, oLoose)[0]
			}
			if k&2 == 2 {
				s = with([]optSet{s}, oShort)[0]
			}
			sets = append(sets, s)
		}
	}
	register(&core.Check{
		ID:    "C08",
		Bound: "all lists of <=3 (4) sources out of 10 contents (in memory and as files), missing, directory; x Loose x ShortCircuit x 12 option sets; all histories of <=4 (5) of 14 operations (append, reload, rewrite, remove, recreate, API changes) over two files x option sets",
		Assumptions: []string{
			"reference parser and overlay rule of /verif/mc/ref",
			"the content after a failed reload is unspecified: histories end there",
			"reader sources are consumed by the first load and are not part of reload histories",
		},
		Spaces: func(tier string) []core.Space {
			hsets := sets
			if tier != "thorough" {
				hsets = nil
				for i, s := range sets {
					if i%4 == 0 || i < 4 {
						hsets = append(hsets, s)
					}
				}
			}
			sp := []core.Space{listSpace(sets, tier2(tier, 3, 4)), convenienceSpace(), appendEqSpace(hsets, tier), pathKinds(tier2(tier, 3, 4)), manySources(sets, tier2(tier, 40, 130))}
			return append(sp, historySpace("histories", hsets, tier2(tier, 4, 5)))
		},
	})
}

func listSpace(sets []optSet, l int) core.Space {
	kinds := len(srcMenu) + 3 // contents, missing, directory, file with content 0
	n := core.WordsUpTo(kinds, l) - 1
	ns := uint64(len(sets))
	return core.Space{
		Name: "lists", N: n * ns, Note: fmt.Sprintf("all non-empty lists of <=%d out of %d sources x %d option sets vs model", l, kinds, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			dir := core.ScratchDir()
			mustWrite(filepath.Join(dir, "ok.ini"), []byte(srcMenu[3]))
			_ = os.Mkdir(filepath.Join(dir, "dir"), 0o755)
			var word []int
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				word = core.Word(kinds, i/ns+1, word)
				var srcs []interface{}
				var ms []msrc
				var names []string
				for _, k := range word {
					switch {
					case k < len(srcMenu):
						srcs = append(srcs, []byte(srcMenu[k]))
						ms = append(ms, msrc{"ok", srcMenu[k]})
						names = append(names, fmt.Sprintf("%q", srcMenu[k]))
					case k == len(srcMenu):
						srcs = append(srcs, filepath.Join(dir, "none.ini"))
						ms = append(ms, msrc{"missing", ""})
						names = append(names, "missing file")
					case k == len(srcMenu)+1:
						srcs = append(srcs, filepath.Join(dir, "dir"))
						ms = append(ms, msrc{"broken", ""})
						names = append(names, "directory")
					default:
						srcs = append(srcs, filepath.Join(dir, "ok.ini"))
						ms = append(ms, msrc{"ok", srcMenu[3]})
						names = append(names, fmt.Sprintf("file %q", srcMenu[3]))
					}
				}
				in := func() string { return fmt.Sprintf("%s %s", o.name, strings.Join(names, ", ")) }
				d := ref.New(o.o)
				ok := modelReload(d, ms)
				var f *ini.File
				var err error
				core.Guard(in, func() { f, err = ini.LoadSources(o.o, srcs[0], srcs[1:]...) })
				w.Step(len(word))
				w.Trace()
				if ok != (err == nil) || ok != (f != nil) {
					return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("success=%v", ok), Got: fmt.Sprint(err)}
				}
				if !ok {
					w.State([]byte("error"))
					return nil
				}
				return sameState(w, d, f, in)
			}
		},
	}
}

func sameState(w *core.W, d *ref.Doc, f *ini.File, in func() string) *core.Fail {
	w.B1 = d.Observe(w.B1[:0])
	core.Guard(in, func() { w.B2 = ref.Observe(w.B2[:0], f) })
	w.State(w.B1)
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Key: in(), Input: in(), Want: string(w.B1), Got: string(w.B2)}
	}
	return nil
}

// convenienceSpace: the Load variants are LoadSources with the documented option.
func convenienceSpace() core.Space {
	fns := []struct {
		name string
		f    func(s interface{}, r ...interface{}) (*ini.File, error)
		o    optSet
	}{{"Load", ini.Load, one()}, {"LooseLoad", ini.LooseLoad, one(oLoose)}, {"InsensitiveLoad", ini.InsensitiveLoad, one(oInsens)}, {"ShadowLoad", ini.ShadowLoad, one(oShadow)}}
	n := len(srcMenu) + 1
	radix := []int{len(fns), n, n}
	return core.Space{
		Name: "load-variants", N: core.Prod(radix), Note: "Load, LooseLoad, InsensitiveLoad, ShadowLoad on all pairs of sources",
		New: func(w *core.W) func(uint64) *core.Fail {
			dir := core.ScratchDir()
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				fn := fns[m[0]]
				var srcs []interface{}
				var ms []msrc
				for _, k := range m[1:] {
					if k == len(srcMenu) {
						srcs = append(srcs, filepath.Join(dir, "none.ini"))
						ms = append(ms, msrc{"missing", ""})
					} else {
						srcs = append(srcs, []byte(srcMenu[k]))
						ms = append(ms, msrc{"ok", srcMenu[k]})
					}
				}
				in := func() string { return fmt.Sprintf("%s(%v)", fn.name, ms) }
				d := ref.New(fn.o.o)
				ok := modelReload(d, ms)
				var f *ini.File
				var err error
				core.Guard(in, func() { f, err = fn.f(srcs[0], srcs[1:]...) })
				w.Step(2)
				w.Trace()
				if ok != (err == nil) {
					return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("success=%v", ok), Got: fmt.Sprint(err)}
				}
				if !ok {
					return nil
				}
				return sameState(w, d, f, in)
			}
		},
	}
}

// appendEqSpace: appending gives what listing from the start gives (library against itself),
// and reloading unchanged sources changes nothing.
func appendEqSpace(sets []optSet, tier string) core.Space {
	docs := lineDocs([]string{"[s]", "k=1", "k=2", "k=", "  n=1", "b", "-=p", "[a]", "l=3 # c"}, tier2(tier, 2, 2))
	ns := uint64(len(sets))
	per := docs.n * docs.n
	return core.Space{
		Name: "append-reload", N: per * ns, Note: fmt.Sprintf("all pairs of %d documents x %d option sets: append vs list, then reload twice, output and content identical", docs.n, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g1, g2 genScratch
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				a := docs.gen(&g1, i/ns%docs.n)
				b := docs.gen(&g2, i/ns/docs.n)
				in := func() string { return fmt.Sprintf("%s %q then %q", o.name, a, b) }
				var res *core.Fail
				core.Guard(in, func() {
					f, err := ini.LoadSources(o.o, a, b)
					w.Step(1)
					if err != nil {
						return
					}
					w.Trace()
					want := string(ref.Observe(nil, f)) + ref.Written(f, "")
					w.State([]byte(want))
					g, err := ini.LoadSources(o.o, a)
					if err != nil {
						res = &core.Fail{Key: in(), Input: in(), Want: "first source alone loads", Got: err.Error()}
						return
					}
					if err = g.Append(b); err != nil {
						res = &core.Fail{Key: in(), Input: in(), Want: "append succeeds", Got: err.Error()}
						return
					}
					h := ini.Empty(o.o)
					if !o.o.ShortCircuit {
						if err = h.Append(a, b); err != nil {
							res = &core.Fail{Key: in(), Input: in(), Want: "append to empty succeeds", Got: err.Error()}
							return
						}
					} else {
						h = nil
					}
					if e := ini.Empty(o.o); e.Append(a) != nil {
						res = &core.Fail{Key: in(), Input: in(), Want: "append succeeds", Got: "error"}
						return
					}
					w.Step(3)
					for r := 0; r < 2; r++ {
						for _, x := range []*ini.File{f, g, h} {
							// an empty first source adds another default section when names need not be unique
							if x == nil || x == h && o.o.AllowNonUniqueSections {
								continue
							}
							if got := string(ref.Observe(nil, x)) + ref.Written(x, ""); got != want {
								res = &core.Fail{Key: in(), Input: in(), Want: want, Got: fmt.Sprintf("after %d reloads: %s", r, got)}
								return
							}
							if err := x.Reload(); err != nil {
								res = &core.Fail{Key: in(), Input: in(), Want: "reload succeeds", Got: err.Error()}
								return
							}
							w.Step(1)
						}
					}
				})
				return res
			}
		},
	}
}

type hworld struct {
	dir  string
	f    *ini.File
	d    *ref.Doc
	srcs []func() msrc // model's view of the source list
	disk [2]msrc
}

func (h *hworld) path(i int) string { return filepath.Join(h.dir, fmt.Sprintf("h%d.ini", i)) }

func (h *hworld) write(i int, s string) {
	mustWrite(h.path(i), []byte(s))
	h.disk[i] = msrc{"ok", s}
}

func (h *hworld) reload() bool {
	var ms []msrc
	for _, s := range h.srcs {
		ms = append(ms, s())
	}
	return modelReload(h.d, ms)
}

func historySpace(name string, sets []optSet, l int) core.Space {
	type hop struct {
		name string
		f    func(h *hworld) (lib error, modelOK bool)
	}
	api := func(name string, f func(h *hworld)) hop {
		return hop{name, func(h *hworld) (error, bool) { f(h); return nil, true }}
	}
	ops := []hop{
		{"Reload", func(h *hworld) (error, bool) { return h.f.Reload(), h.reload() }},
		{"Append(file1)", func(h *hworld) (error, bool) {
			h.srcs = append(h.srcs, func() msrc { return h.disk[1] })
			return h.f.Append(h.path(1)), h.reload()
		}},
		{"Append(memory)", func(h *hworld) (error, bool) {
			h.srcs = append(h.srcs, func() msrc { return msrc{"ok", "[s]\nk=m ; mc\n[v]\n"} })
			return h.f.Append([]byte("[s]\nk=m ; mc\n[v]\n")), h.reload()
		}},
		{"Append(file1, memory)", func(h *hworld) (error, bool) {
			h.srcs = append(h.srcs, func() msrc { return h.disk[1] }, func() msrc { return msrc{"ok", "[s]\nk=m2\nm=2\n"} })
			return h.f.Append(h.path(1), []byte("[s]\nk=m2\nm=2\n")), h.reload()
		}},
		{"Append(memory, file1, file0)", func(h *hworld) (error, bool) {
			h.srcs = append(h.srcs, func() msrc { return msrc{"ok", "[s]\nk=m3\nm=3\n"} }, func() msrc { return h.disk[1] }, func() msrc { return h.disk[0] })
			return h.f.Append([]byte("[s]\nk=m3\nm=3\n"), h.path(1), h.path(0)), h.reload()
		}},
		api("rewrite file0: changed", func(h *hworld) { h.write(0, "[s]\nk=2\n  n=2\n[w]\np=1\n") }),
		api("rewrite file0: shorter", func(h *hworld) { h.write(0, "[s]\n") }),
		api("rewrite file0: body", func(h *hworld) { h.write(0, "[a]\nraw=2\n <x=1>\n[s]\n") }),
		api("rewrite file0: as at start", func(h *hworld) { h.write(0, historyDoc) }),
		api("remove file0", func(h *hworld) { _ = os.Remove(h.path(0)); h.disk[0] = msrc{"missing", ""} }),
		api("write file1", func(h *hworld) { h.write(1, "k=f1\n[s]\nk=f1\n[s]\nk=f2\n") }),
		api("set s.k=api", func(h *hworld) {
			h.f.Section("s").Key("k").SetValue("api")
			h.d.Section("s").Key("k").Value = "api"
		}),
		api("new key s.z", func(h *hworld) {
			_, _ = h.f.Section("s").NewKey("z", "zz")
			_, _ = h.d.Section("s").NewKey("z", "zz")
		}),
		api("shadow s.k", func(h *hworld) {
			_ = h.f.Section("s").Key("k").AddShadow("sh")
			_ = h.d.Section("s").Key("k").AddShadow("sh")
		}),
		api("delete key s.k", func(h *hworld) { h.f.Section("s").DeleteKey("k"); h.d.Section("s").DeleteKey("k") }),
		api("delete section s", func(h *hworld) { h.f.DeleteSection("s"); h.d.Delete("s") }),
	}
	k := len(ops)
	n := core.WordsUpTo(k, l)
	ns := uint64(len(sets))
	return core.Space{
		Name: name, N: n * ns, Note: fmt.Sprintf("all histories of <=%d of %d operations on two files x %d option sets, content compared with the model after every step", l, k, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			dir := core.ScratchDir()
			var word []int
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				word = core.Word(k, i/ns, word)
				in := func() string {
					var b strings.Builder
					fmt.Fprintf(&b, "%s from %q:", o.name, historyDoc)
					for _, s := range word {
						b.WriteString(" " + ops[s].name + ";")
					}
					return b.String()
				}
				var res *core.Fail
				core.Guard(in, func() {
					h := &hworld{dir: dir, d: ref.New(o.o)}
					h.write(0, historyDoc)
					_ = os.Remove(h.path(1))
					h.disk[1] = msrc{"missing", ""}
					h.srcs = []func() msrc{func() msrc { return h.disk[0] }}
					var err error
					h.f, err = ini.LoadSources(o.o, h.path(0))
					if ok := h.reload(); ok != (err == nil) {
						res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("start loads: %v", ok), Got: fmt.Sprint(err)}
						return
					}
					w.Trace()
					if err != nil {
						return
					}
					for j, s := range word {
						err, ok := ops[s].f(h)
						w.Step(1)
						if ok != (err == nil) {
							res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("step %d succeeds: %v", j+1, ok), Got: fmt.Sprint(err)}
							return
						}
						if !ok {
							return
						}
						if j == len(word)-1 {
							res = sameState(w, h.d, h.f, in)
						}
					}
				})
				return res
			}
		},
	}
}

const historyDoc = "g=0\n[s]\nk=1 ; c\nk=2\n  n=1\n[a]\nraw=1\n[s]\nk=\n  n=3\n-=p\n"
