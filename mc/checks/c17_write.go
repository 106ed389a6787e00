package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// layout judges one file: the library's output is the model's rendering, twice
// the same, and nothing observable changes.
func layout(f ref.Format, indent string) judge {
	return func(w *core.W, o *optSet, x *world, in func() string) *core.Fail {
		w.B1 = ref.Observe(w.B1[:0], x.lib)
		want := x.d.Write(f, indent)
		var buf bytes.Buffer
		n, err := x.lib.WriteToIndent(&buf, indent)
		got := buf.String()
		var buf2 bytes.Buffer
		_, _ = x.lib.WriteToIndent(&buf2, indent)
		w.B2 = ref.Observe(w.B2[:0], x.lib)
		w.Step(2)
		w.Trace()
		w.State(buf.Bytes())
		switch {
		case err != nil || n != int64(len(got)):
			return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%d bytes, no error", len(got)), Got: fmt.Sprintf("%d, %v", n, err)}
		case got != want:
			return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%q", got)}
		case got != buf2.String():
			return &core.Fail{Key: in(), Input: in(), Want: "the same bytes again: " + q(buf.Bytes()), Got: q(buf2.Bytes())}
		case !bytes.Equal(w.B1, w.B2):
			return &core.Fail{Key: in(), Input: in(), Want: "file unchanged by writing: " + string(w.B1), Got: string(w.B2)}
		}
		if indent == "" {
			var b3 bytes.Buffer
			if _, err := x.lib.WriteTo(&b3); err != nil || b3.String() != got {
				return &core.Fail{Key: in(), Input: in(), Want: "WriteTo gives " + q(buf.Bytes()), Got: q(b3.Bytes())}
			}
		}
		return nil
	}
}

// docsLayout judges every loadable document.
func docsLayout(name string, nf namedFormat, indent string, sets []optSet, t texts) core.Space {
	ns := uint64(len(sets))
	j := layout(nf.f, indent)
	return core.Space{
		Name: name + "-" + nf.name, N: t.n * ns, Setup: nf.f.Apply,
		Note: fmt.Sprintf("writing %d loaded documents x %d option sets", t.n, ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				text := t.gen(&g, i/ns)
				in := func() string { return fmt.Sprintf("writing %q with %s %s indent %q", text, o.name, nf.name, indent) }
				var fl *core.Fail
				core.Guard(in, func() {
					x := &world{d: ref.New(o.o)}
					var err error
					if x.lib, err = ini.LoadSources(o.o, append([]byte(nil), text...)); err != nil {
						return
					}
					if x.d.Parse(string(text)) != nil {
						return // judged by the parsing properties
					}
					fl = j(w, o, x, in)
				})
				return fl
			}
		},
	}
}

// sink is a destination that accepts at most n bytes.
type sink struct {
	left  int
	got   []byte
	quiet bool // reports the short write without an error
	err   error
	whole bool // fails a Write without accepting a part of it
}

func (s *sink) Write(p []byte) (int, error) {
	n := len(p)
	if n <= s.left {
		s.left -= n
		s.got = append(s.got, p...)
		return n, nil
	}
	n = s.left
	if s.whole {
		n = 0
	}
	s.left = 0
	s.got = append(s.got, p[:n]...)
	if s.quiet {
		return n, nil
	}
	return n, s.err
}

var errSink = errors.New("sink failed")

var writeDocs = []string{"", "a=1\n", "; c\na=1\n[s]\nlong name = `x\ny`\nb = \"\"\n; d\n[s.t] # e\nk=1\n", "[a]\nbody = 1\nbody= 2\n[s]\nb=2\n",
	"k=\n" + strings.Repeat("[section]\nkey = value\n", 3), manySections(8), manySections(120)}

// manySections is a document of about 50 bytes per section.
func manySections(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "[section %d]\nkey%d = a value of some length\nother=2 ; comment\n", i, i)
	}
	return b.String()
}

func sinkSpace() core.Space {
	sets := []optSet{one(), one(oRaw), one(oShadow), one(oNonUniq)}
	type pt struct{ doc, set, at int }
	var pts []pt
	load := func(p pt) *ini.File {
		f, err := ini.LoadSources(sets[p.set].o, []byte(writeDocs[p.doc]))
		if err != nil {
			return ini.Empty(sets[p.set].o) // the parsing properties judge that
		}
		return f
	}
	for d := range writeDocs {
		for s := range sets {
			n := len(ref.Written(load(pt{d, s, 0}), "  "))
			for at := 0; at <= n; at++ {
				if n > 1000 && (s > 0 || at > 200 && at < n-200 && (at+40)%4096 > 80 && (at+40)%512 > 80) {
					continue // long outputs: the ends and around the usual buffer sizes
				}
				pts = append(pts, pt{d, s, at})
			}
		}
	}
	radix := []int{len(pts), 3, 2}
	return core.Space{
		Name: "failing-writers", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply, Note: "destinations that accept every possible number of bytes, then fail, fail without accepting a part, or accept too little silently",
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				p := pts[m[0]]
				indent := []string{"", "  "}[m[2]]
				s := &sink{left: p.at, err: errSink, quiet: m[1] == 1, whole: m[1] == 2}
				in := func() string {
					return fmt.Sprintf("writing %q with %s to a destination accepting %d bytes (mode %d, indent %q)", writeDocs[p.doc], sets[p.set].name, p.at, m[1], indent)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					f := load(p)
					want := ref.Written(f, indent)
					before := ref.Observe(nil, f)
					var n int64
					var err error
					if indent == "" {
						n, err = f.WriteTo(s)
					} else {
						n, err = f.WriteToIndent(s, indent)
					}
					w.Step(1)
					w.Trace()
					w.State([]byte(fmt.Sprint(p.doc, n, err)))
					switch {
					case n != int64(len(s.got)):
						fl = &core.Fail{Want: fmt.Sprintf("count %d", len(s.got)), Got: fmt.Sprint(n)}
					case (err != nil) != (len(s.got) < len(want)):
						fl = &core.Fail{Want: fmt.Sprintf("error iff less than %d bytes accepted", len(want)), Got: fmt.Sprintf("%d bytes, error %v", len(s.got), err)}
					case !strings.HasPrefix(want, string(s.got)):
						fl = &core.Fail{Want: fmt.Sprintf("a prefix of %q", want), Got: fmt.Sprintf("%q", s.got)}
					case !bytes.Equal(before, ref.Observe(nil, f)):
						fl = &core.Fail{Want: string(before), Got: string(ref.Observe(nil, f))}
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// saveSpace saves real files inside a scratch directory.
func saveSpace() core.Space {
	olds := []string{"<absent>", "", "x", strings.Repeat("old content that is longer\n", 200)}
	wheres := []string{"file", "missing directory", "a directory", "dangling link", "/dev/full", "hard link", "below a file", "empty name"}
	radix := []int{len(writeDocs), len(olds), len(wheres), 2, 2}
	return core.Space{
		Name: "save", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply, Note: "every document over every old content at every kind of destination",
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				doc, old, where, indent, twice := writeDocs[m[0]], olds[m[1]], wheres[m[2]], []string{"", "\t"}[m[3]], m[4] == 1
				in := func() string {
					return fmt.Sprintf("saving %q over %.20q (%d bytes) at %s, indent %q, twice=%v", doc, old, len(old), where, indent, twice)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					dir := core.ScratchDir()
					defer os.RemoveAll(dir)
					path := filepath.Join(dir, "out.ini")
					content := path
					fails := false
					put := func(p string) {
						if old != "<absent>" {
							if err := os.WriteFile(p, []byte(old), 0600); err != nil {
								panic(err)
							}
						}
					}
					switch where {
					case "file":
						put(path)
					case "missing directory":
						path, fails = filepath.Join(dir, "no", "out.ini"), true
					case "a directory":
						fails = true
						if err := os.Mkdir(path, 0700); err != nil {
							panic(err)
						}
					case "dangling link":
						content = filepath.Join(dir, "target.ini")
						put(content)
						if err := os.Symlink("target.ini", path); err != nil {
							panic(err)
						}
					case "/dev/full":
						path, fails = "/dev/full", doc != ""
					case "hard link":
						put(path)
						if old != "<absent>" {
							if err := os.Link(path, filepath.Join(dir, "other.ini")); err != nil {
								panic(err)
							}
						}
					case "below a file":
						put(path)
						if old == "<absent>" {
							_ = os.WriteFile(path, nil, 0600)
						}
						path, fails = filepath.Join(path, "out.ini"), true
					case "empty name":
						path, fails = "", true
					}
					f, err := ini.Load([]byte(doc))
					if err != nil {
						fl = &core.Fail{Want: "loads", Got: err.Error()}
						return
					}
					save := func() error {
						if indent == "" {
							return f.SaveTo(path)
						}
						return f.SaveToIndent(path, indent)
					}
					err = save()
					if twice {
						err = save()
					}
					w.Step(1)
					w.Trace()
					w.State([]byte(fmt.Sprint(m[0], where, err != nil)))
					if fails {
						if err == nil {
							fl = &core.Fail{Want: "an error", Got: "success"}
						}
						return
					}
					if where == "/dev/full" {
						return
					}
					got, rerr := os.ReadFile(content)
					if want := ref.Written(f, indent); err != nil || rerr != nil || string(got) != want {
						fl = &core.Fail{Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%v %v %q", err, rerr, got)}
					}
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// quotaSpace limits the size a file may grow to, at every byte.
func quotaSpace() core.Space {
	type pt struct{ doc, at int }
	var pts []pt
	for d, t := range writeDocs {
		f, err := ini.Load([]byte(t))
		if err != nil {
			continue
		}
		for at := 0; at <= len(ref.Written(f, "")); at++ {
			pts = append(pts, pt{d, at})
		}
	}
	return core.Space{
		Name: "disk-full", N: uint64(len(pts)), Serial: true, Setup: ref.DefaultFormat.Apply, Note: "saving under a file size limit at every byte of the output: success is reported exactly when all of it fits",
		New: func(w *core.W) func(uint64) *core.Fail {
			signal.Ignore(syscall.SIGXFSZ)
			dir := core.ScratchDir()
			return func(i uint64) *core.Fail {
				p := pts[i]
				in := func() string {
					return fmt.Sprintf("saving %q where files may grow to %d bytes", writeDocs[p.doc], p.at)
				}
				f, err := ini.Load([]byte(writeDocs[p.doc]))
				if err != nil {
					return &core.Fail{Key: in(), Input: in(), Want: "loads", Got: err.Error()}
				}
				want := ref.Written(f, "")
				path := filepath.Join(dir, "out.ini")
				_ = os.Remove(path)
				var old syscall.Rlimit
				if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
					panic(err)
				}
				lim := old
				lim.Cur = uint64(p.at)
				if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
					panic(err)
				}
				err = f.SaveTo(path)
				if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); e != nil {
					panic(e)
				}
				got, _ := os.ReadFile(path)
				w.Step(1)
				w.Trace()
				w.State([]byte(fmt.Sprint(p, err != nil)))
				if p.at >= len(want) && (err != nil || string(got) != want) || p.at < len(want) && err == nil {
					return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("success exactly when %d bytes fit", len(want)), Got: fmt.Sprintf("err=%v, %d bytes written", err, len(got))}
				}
				return nil
			}
		},
	}
}

func init() {
	register(&core.Check{
		ID:    "C17",
		Bound: "files: all sequences of up to 4 (5) building operations per theme and all documents of up to 4 (5) lines, x layout presets x indents x option sets; destinations: every number of accepted bytes of 6 files, every save destination kind x old content, every file size limit; repeated and long elements to 4096 (9000)",
		Spaces: func(tier string) []core.Space {
			var out []core.Space
			ops := []op{opPut("", "d", "1"), opPut("s", "a", "1"), opPut("s", "long name", ""), opPut("s", "a=b", " x"), opPut("s", "q\"", "y`z"), opPut("s", "a", "x\ny#"),
				opPut("s.t", "a", "3;4"), opAnotherSection("e"), opAnotherSection("DEFAULT"), opSecComment("s", "c\n# d\n\n;e"), opSecComment("", "dc"),
				opKeyComment("s", "a", "c1 \t\n ;c2 "), opKeyComment("", "d", "# c"), opDropKey("s", "a"), opDropSection("s"), opDropSection("")}
			sops := []op{opPut("s", "a", "1"), opPut("s", "bb", "2"), opPut("s", "a", ""), opPutShadow("s", "a", "1"), opPutShadow("s", "a", "2\n3"), opPutShadow("s", "a", ""),
				opPutShadow("", "a", " z "), opPutNested("s", "a", "n1"), opPutNested("s", "a", "n 2"), opPutNested("", "k", "n"), opPutBool("s", "flag"), opPut("s", "flag", "no"),
				opPutBool("", "#x"), opKeyComment("s", "a", "c"), opKeyComment("s", "flag", "d\ne")}
			rops := []op{opRawSection("a", "line 1\nline = 2\n"), opRawSection("B", "x"), opRawSection("a", ""), opPut("s", "k", "1"), opPut("c", "k", "2"), opSecComment("a", "c"), opPut("", "d", "1"), opDropSection("a"), opPut("a", "k", "1")}
			lines := []string{"k=1", "bb = 2 ; c", "# d", "[s]", "[s.t] # e", "-=v", "- = w", "[k]", "  n", "flag", "k=`x\ny`"}
			for i, nf := range formats(tier == "thorough") {
				l := tier2(tier, 3, 4)
				for _, ind := range []string{"", "\t"} {
					if i == 0 && ind == "" {
						l++
					}
					lay := layout(nf.f, ind)
					out = append(out,
						buildSpace(fmt.Sprintf("build%q", ind), nf, optSets([]opt{oInsens, oNonUniq, oIgnInl, rtOpts[len(rtOpts)-1]}, 1), "", ops, l, lay),
						buildSpace(fmt.Sprintf("values%q", ind), nf, optSets([]opt{oShadow, oDup, oNested, oBool, oUnescQ, oUnescC, oPreserve}, 2), "", sops, 3, lay),
						buildSpace(fmt.Sprintf("auto%q", ind), nf, optSets([]opt{oInsens, oIgnInl}, 1), "[s]\n-=1\n- = 22\nlong=3\n", ops, 2, lay),
						buildSpace(fmt.Sprintf("numbered%q", ind), nf, with(optSets([]opt{oShadow, oDup, oNested}, 2), oBool), "[s]\n-=1\n- = 22\nlong=3\n-=4\n[t]\n-=1\n", []op{opDropKey("s", "#1"), opDropKey("s", "#2"), opDropKey("s", "#3"), opPut("s", "#1", "x"), opPut("s", "#4", "y"), opPut("t", "#2", ""),
							opPutShadow("t", "#1", "z"), opPutBool("s", "#2"), opPutBool("t", "k"), opPut("t", "k", "true"), opPut("t", "k", "5"), opPutNested("t", "k", "n"), opPut("t", "k", "")}, 3, lay),
						buildSpace(fmt.Sprintf("raw%q", ind), nf, with(optSets([]opt{oInsens, oNonUniq}, 1), oRaw), "", rops, l, lay),
						docsLayout(fmt.Sprintf("scaled-docs%q", ind), nf, ind, []optSet{one(), one(oShadow), one(oNested, oBool), one(oRaw, oSkip, oNonUniq), one(oPython)}, scaledTexts(tier2(tier, 520, 4200))),
						builtSpace(fmt.Sprintf("scaled-built%q", ind), nf, []optSet{one(), one(oShadow, oBool), one(oInsens, oNonUniq)}, filePrograms(tier2(tier, 130, 1100)), lay),
						docsLayout(fmt.Sprintf("docs%q", ind), nf, ind, optSets([]opt{oShadow, oNested, oBool, oRaw, oNonUniq, oInsens, oSkip, oPython}, 2), lineDocs(lines, l)))
					l = tier2(tier, 3, 4)
				}
			}
			return append(out, sinkSpace(), saveSpace(), quotaSpace(), formatSwitch())
		},
	})
}
