package checks

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// pathKinds: every way in which a path or a reader can be no readable file, in
// lists of sources, appended one after another and reloaded. Only a file that
// does not exist is missing.
func pathKinds(l int) core.Space {
	type kind struct {
		name string
		src  func(dir string) interface{}
		msrc
	}
	path := func(p string) func(string) interface{} {
		return func(dir string) interface{} {
			if p == "" {
				return ""
			}
			return filepath.Join(dir, p)
		}
	}
	broken := func(err error) func(string) interface{} {
		return func(string) interface{} { return io.MultiReader(strings.NewReader("[r]\nk=1\n"), failing{err}) }
	}
	kinds := []kind{
		{"file", path("ok.ini"), msrc{"ok", srcMenu[0]}},
		{"link to a file", path("link.ini"), msrc{"ok", srcMenu[0]}},
		{"empty file", path("empty.ini"), msrc{"ok", ""}},
		{"bytes", func(string) interface{} { return []byte(srcMenu[1]) }, msrc{"ok", srcMenu[1]}},
		{"missing file", path("none.ini"), msrc{"missing", ""}},
		{"file of a missing directory", path("none/x.ini"), msrc{"missing", ""}},
		{"dangling link", path("dangling.ini"), msrc{"missing", ""}},
		{"empty path", path(""), msrc{"missing", ""}},
		{"directory", path("dir"), msrc{"broken", ""}},
		{"path below a file", path("ok.ini/x.ini"), msrc{"broken", ""}},
		{"link loop", path("loop.ini"), msrc{"broken", ""}},
		{"name too long", path(strings.Repeat("n", 300)), msrc{"broken", ""}},
		{"name with NUL", path("a\x00b"), msrc{"broken", ""}},
		{"reader failing with ErrNotExist", broken(os.ErrNotExist), msrc{"broken", ""}},
		{"reader failing with ENOENT", broken(&fs.PathError{Op: "read", Path: "x", Err: syscall.ENOENT}), msrc{"broken", ""}},
		{"reader failing", broken(errFault), msrc{"broken", ""}},
	}
	sets := []optSet{one(), one(oLoose), one(oShort), one(oLoose, oShort)}
	ways := []string{"LoadSources", "Append each", "Append to a file", "Append all"}
	n := core.WordsUpTo(len(kinds), l) - 1
	radix := []int{len(sets), len(ways)}
	per := core.Prod(radix)
	return core.Space{
		Name: "path-kinds", N: n * per, Note: fmt.Sprintf("all lists of <=%d of %d kinds of path and reader x loose, short-circuit x %d ways to load them", l, len(kinds), len(ways)),
		New: func(w *core.W) func(uint64) *core.Fail {
			dir := core.ScratchDir()
			mustWrite(filepath.Join(dir, "ok.ini"), []byte(srcMenu[0]))
			mustWrite(filepath.Join(dir, "empty.ini"), nil)
			_ = os.Mkdir(filepath.Join(dir, "dir"), 0o755)
			_ = os.Symlink("ok.ini", filepath.Join(dir, "link.ini"))
			_ = os.Symlink("gone", filepath.Join(dir, "dangling.ini"))
			_ = os.Symlink("loop.ini", filepath.Join(dir, "loop.ini"))
			var word, m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				o := &sets[m[0]]
				word = core.Word(len(kinds), i/per+1, word)
				var names []string
				var srcs []interface{}
				var ms []msrc
				for _, k := range word {
					names = append(names, kinds[k].name)
					srcs = append(srcs, kinds[k].src(dir))
					ms = append(ms, kinds[k].msrc)
				}
				in := func() string { return fmt.Sprintf("%s of %s with %s", ways[m[1]], strings.Join(names, ", "), o.name) }
				var fl *core.Fail
				core.Guard(in, func() {
					var f *ini.File
					var err error
					d := ref.New(o.o)
					ok := true
					switch m[1] {
					case 0:
						f, err = ini.LoadSources(o.o, srcs[0], srcs[1:]...)
						ok = modelReload(d, ms)
					case 1:
						// every Append loads all the sources again, readers included
						for j, k := range word {
							if j < len(word)-1 && ms[j].kind == "broken" || strings.HasPrefix(kinds[k].name, "reader") && j < len(word)-1 {
								return
							}
						}
						f = ini.Empty(o.o)
						ms = append([]msrc{{"ok", ""}}, ms...)
						for j := range srcs {
							err = f.Append(srcs[j])
							ok = modelReload(d, ms[:j+2])
							if err != nil || !ok {
								break
							}
						}
					case 2:
						f, err = ini.LoadSources(o.o, []byte("top=1\n"))
						if err == nil {
							err = f.Append(srcs[0], srcs[1:]...)
						}
						ok = modelReload(d, append([]msrc{{"ok", "top=1\n"}}, ms...))
					case 3:
						f = ini.Empty(o.o)
						err = f.Append(srcs[0], srcs[1:]...)
						ok = modelReload(d, append([]msrc{{"ok", ""}}, ms...))
					}
					w.Step(len(word))
					w.Trace()
					w.State([]byte(fmt.Sprint(ok, names)))
					if ok != (err == nil) {
						fl = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("success=%v", ok), Got: fmt.Sprint(err)}
						return
					}
					if ok {
						fl = sameState(w, d, f, in)
					}
				})
				return fl
			}
		},
	}
}

type failing struct{ err error }

func (f failing) Read([]byte) (int, error) { return 0, f.err }
