package checks

import (
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/go-ini/ini"

	"inimc/core"
)

var faultDocs = []string{
	"", "a=1", "a=1\nb=2\n", "\xef\xbb\xbfa=1\n", "\xfe\xff[s]\nk=1\n", "[s]\r\na=1\r\n", "a=`x\ny`\nb=1\n", "a=\"\"\"b\nc\"\"\"\n", "a=1\\\n2\\\n3\nb=1\n",
	"a=1\n  2\n\t3\nb=2\n", "a=\n  2\n3=4\n", "k=\n  v\n  w\nl=1\n", "#c\n;d\na=1 #e\n[t] ;f\n", "b1\n[s]\nb2\nk=v", "a=1\n[bad\n", "=1\n", "a=`open\n", "[a]\nraw\n[b]\nk=1\n", "a=\\",
}

var faultErrs = []error{errFault, io.ErrUnexpectedEOF, os.ErrNotExist, io.ErrClosedPipe}

func init() {
	register(&core.Check{
		ID:    "C07",
		Level: "fault_enumeration",
		Bound: "a read fault after every byte of 19 documents x 4 error kinds x {persistent, one-shot} x {alone, together with data} x read sizes {1,3,all} x option sets within 2 (3) deviations x reader kinds; around every 4096-byte boundary of a 13000-byte document; each position in lists of 3 sources x Loose x ShortCircuit; append and reload; open descriptors of path sources counted",
		Assumptions: []string{
			"streams given as arguments but never reached because an earlier source failed or short-circuited are not required to be closed (only never to be read)",
			"descriptor leaks of path sources are observed through /proc/self/fd",
		},
		Spaces: func(tier string) []core.Space {
			sets := optSets([]opt{oPython, oNested, oBool, oSkip, oLoose, oShort, oRaw, oIgnCont, oUnescQ, oBuf}, tier2(tier, 2, 3))
			chunks := []int{0, 1, 3}
			type pt struct{ doc, at int }
			var pts []pt
			for d, t := range faultDocs {
				for at := 0; at <= len(t); at++ {
					pts = append(pts, pt{d, at})
				}
			}
			radix := []int{len(pts), len(sets), len(chunks), len(faultErrs), 2, 2, 2}
			single := core.Space{
				Name: "every-byte", N: core.Prod(radix), Note: fmt.Sprintf("%d fault points x %d option sets x read sizes x error kinds x one-shot x with-data x closer", len(pts), len(sets)),
				New: func(w *core.W) func(uint64) *core.Fail {
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, radix, m)
						p := pts[m[0]]
						o := &sets[m[1]]
						s := &script{data: []byte(faultDocs[p.doc]), chunk: chunks[m[2]], failAt: p.at, failErr: faultErrs[m[3]], once: m[4] == 1, withData: m[5] == 1}
						in := func() string {
							return fmt.Sprintf("%s %q read by %d, %v after %d bytes (once=%v with-data=%v closer=%v)", o.name, faultDocs[p.doc], chunks[m[2]], s.failErr, p.at, s.once, s.withData, m[6] == 1)
						}
						var src interface{} = s
						if m[6] == 1 {
							src = scriptCloser{s}
						}
						var f *ini.File
						var err error
						core.Guard(in, func() { f, err = ini.LoadSources(o.o, src) })
						w.Step(s.reads)
						w.Trace()
						w.State([]byte(fmt.Sprintf("%d %v %d", p.doc, err, s.reads)))
						if err == nil || f != nil {
							return &core.Fail{Key: in(), Input: in(), Want: "an error and no file", Got: fmt.Sprintf("err=%v file=%v", err, f != nil)}
						}
						if m[6] == 1 && s.closes != 1 {
							return &core.Fail{Key: in(), Input: in(), Want: "closed exactly once", Got: fmt.Sprintf("%d times", s.closes)}
						}
						return nil
					}
				},
			}
			sp := []core.Space{single, closeSpace(), longFaultSpace(tier), listFaultSpace(tier), pathSpace()}
			return sp
		},
	})
}

// closeSpace: without a fault every read-closer is closed once, on success and on malformed content.
func closeSpace() core.Space {
	sets := optSets([]opt{oPython, oNested, oBool, oSkip, oLoose, oShort, oRaw, oShadow}, 2)
	radix := []int{len(faultDocs), len(faultDocs), len(sets), 2}
	return core.Space{
		Name: "close-no-fault", N: core.Prod(radix), Note: "all pairs of documents as read-closers: each one read is closed exactly once; a malformed first one stops the load",
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				o := &sets[m[2]]
				a := &script{data: []byte(faultDocs[m[0]]), eof: m[3] == 1}
				b := &script{data: []byte(faultDocs[m[1]]), eof: m[3] == 1}
				in := func() string { return fmt.Sprintf("%s sources %q, %q", o.name, a.data, b.data) }
				var err error
				core.Guard(in, func() { _, err = ini.LoadSources(o.o, scriptCloser{a}, scriptCloser{b}) })
				w.Step(a.reads + b.reads)
				w.Trace()
				// would the first alone load?
				_, err1 := ini.LoadSources(o.o, a.data)
				reached := err1 == nil && !o.o.ShortCircuit
				w.State([]byte(fmt.Sprintf("%v %v %v", err, err1, reached)))
				wantB := 0
				if reached {
					wantB = 1
				}
				if a.closes != 1 || reached && b.closes != 1 || !reached && b.reads != 0 || b.closes > 1 {
					return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("first closed once, second closed %d and reached=%v", wantB, reached), Got: fmt.Sprintf("closes %d,%d reads %d,%d", a.closes, b.closes, a.reads, b.reads)}
				}
				if !reached && (err == nil) != (err1 == nil) {
					return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprint(err1), Got: fmt.Sprint(err)}
				}
				return nil
			}
		},
	}
}

// longFaultSpace: documents longer than the read buffer, faults around its boundaries.
func longFaultSpace(tier string) core.Space {
	var docs [][]byte
	for _, pat := range []string{"k=1\n", "k=1\n  indented line of a python value\n  other\n", "# comment\n[s]\nkey = `multi\nline`\n", "k=a \\\n  b\n"} {
		var d []byte
		for len(d) < 13000 {
			d = append(d, pat...)
		}
		docs = append(docs, d)
	}
	// one python value / one quoted value / one continuation across the whole document
	py := []byte("k=1\n")
	qu := []byte("k=`")
	ct := []byte("k=")
	for len(py) < 13000 {
		py = append(py, "  x\n"...)
		qu = append(qu, "xy z\n"...)
		ct = append(ct, "xy\\\n"...)
	}
	docs = append(docs, py, append(qu, "`\n"...), ct)
	var ats []int
	r := tier2(tier, 2, 40)
	for _, c := range []int{0, 4096, 8192, 12288, 12900} {
		for d := -r; d <= r; d++ {
			if c+d >= 0 {
				ats = append(ats, c+d)
			}
		}
	}
	sets := []optSet{one(), one(oPython), one(oPython, oBool, oNested), one(oLoose), one(oPython, oBuf)}
	chunks := []int{0, 1, 4096, 1000}
	radix := []int{len(docs), len(ats), len(sets), len(chunks), 2, 2, 2}
	return core.Space{
		Name: "long-documents", N: core.Prod(radix), Note: fmt.Sprintf("7 documents of 13000 bytes x %d fault offsets around the buffer boundaries x 5 option sets x 4 read sizes x one-shot x with-data x 2 error kinds", len(ats)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				o := &sets[m[2]]
				s := &script{data: docs[m[0]], failAt: ats[m[1]], chunk: chunks[m[3]], once: m[4] == 1, withData: m[5] == 1, failErr: faultErrs[m[6]*2]}
				in := func() string {
					return fmt.Sprintf("%s 13000 bytes of %q read by %d, %v after %d bytes (once=%v with-data=%v)", o.name, docs[m[0]][:30], s.chunk, s.failErr, s.failAt, s.once, s.withData)
				}
				var err error
				core.Guard(in, func() { _, err = ini.LoadSources(o.o, scriptCloser{s}) })
				w.Step(s.reads)
				w.Trace()
				w.State([]byte(fmt.Sprintf("%d %d %d", m[0], m[1], s.reads)))
				if err == nil || s.closes != 1 {
					return &core.Fail{Key: in(), Input: in(), Want: "an error, closed once", Got: fmt.Sprintf("err=%v, closed %d times", err, s.closes)}
				}
				return nil
			}
		},
	}
}

// listFaultSpace: a failing source in each position, through load, append and reload.
func listFaultSpace(tier string) core.Space {
	good := []string{"a=1\n", "", "[s]\nk=`x\ny`\n"}
	sets := []optSet{one(), one(oLoose), one(oShort), one(oLoose, oShort), one(oPython), one(oPython, oLoose)}
	bad := []string{"b=2\n[t]\nc=3\n", "b=2", ""}
	how := []string{"LoadSources", "Append", "Reload", "Append(others)"}
	radix := []int{3, len(bad), 16, len(good), len(sets), len(faultErrs), 2, 2, len(how)}
	return core.Space{
		Name: "source-lists", N: core.Prod(radix), Note: "a failing read-closer in each position of 3 sources x fault offset x good documents x loose x short-circuit x error kind x one-shot x with-data, via load, append and reload",
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				pos, at := m[0], m[2]
				if at > len(bad[m[1]]) {
					return nil
				}
				o := &sets[m[4]]
				ss := make([]*script, 3)
				src := make([]interface{}, 3)
				for j := range ss {
					ss[j] = &script{data: []byte(good[(m[3]+j)%len(good)])}
					src[j] = scriptCloser{ss[j]}
				}
				ss[pos].data = []byte(bad[m[1]])
				arm := func() {
					ss[pos].failAt, ss[pos].failErr, ss[pos].once, ss[pos].withData = at, faultErrs[m[5]], m[6] == 1, m[7] == 1
				}
				in := func() string {
					return fmt.Sprintf("%s via %s: source %d of 3 (%q) fails with %v after %d bytes (once=%v with-data=%v)", o.name, how[m[8]], pos+1, bad[m[1]], faultErrs[m[5]], at, m[6] == 1, m[7] == 1)
				}
				var res *core.Fail
				core.Guard(in, func() {
					var err error
					base := [3]int{}
					first := 0 // index of the first source that the observed call reads
					switch how[m[8]] {
					case "LoadSources":
						arm()
						_, err = ini.LoadSources(o.o, src[0], src[1], src[2])
					case "Append", "Append(others)":
						arm()
						f := ini.Empty(o.o)
						if how[m[8]] == "Append" {
							err = f.Append(src[0])
							if err == nil && pos > 0 {
								base[0] = ss[0].closes
								err = f.Append(src[1])
								if err == nil && pos > 1 {
									return // consumed read-closers cannot be read again; covered by Append(others)
								}
							}
							if pos > 0 {
								return
							}
						} else {
							err = f.Append(src[0], src[1], src[2])
						}
						if o.o.ShortCircuit {
							// the empty source loads first
							if err != nil || ss[pos].reads != 0 {
								res = &core.Fail{Key: in(), Input: in(), Want: "short-circuit after the first source", Got: fmt.Sprint(err)}
							}
							return
						}
					case "Reload":
						var f *ini.File
						f, err = ini.LoadSources(o.o, src[0], src[1], src[2])
						if err != nil {
							res = &core.Fail{Key: in(), Input: in(), Want: "first load succeeds", Got: fmt.Sprint(err)}
							return
						}
						for j := range ss {
							base[j] = ss[j].closes
							ss[j].pos, ss[j].reads = 0, 0
						}
						arm()
						err = f.Reload()
					}
					w.Step(ss[0].reads + ss[1].reads + ss[2].reads)
					w.Trace()
					w.State([]byte(fmt.Sprintf("%d %v %v", pos, err, how[m[8]])))
					if o.o.ShortCircuit && pos > first {
						if err != nil || ss[pos].reads != 0 {
							res = &core.Fail{Key: in(), Input: in(), Want: "short-circuit before the failing source", Got: fmt.Sprintf("err=%v reads=%d", err, ss[pos].reads)}
						}
						return
					}
					if err == nil {
						res = &core.Fail{Key: in(), Input: in(), Want: "an error", Got: "none"}
						return
					}
					for j := range ss {
						c := ss[j].closes - base[j]
						switch {
						case j <= pos && c != 1:
							res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("source %d closed exactly once", j+1), Got: fmt.Sprintf("%d times", c)}
						case j > pos && (ss[j].reads != 0 || c > 1):
							res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("source %d not read after the failure", j+1), Got: fmt.Sprintf("%d reads, %d closes", ss[j].reads, c)}
						}
					}
				})
				return res
			}
		},
	}
}

// pathSpace: files that load, are malformed, missing or unreadable leave no descriptor open.
func pathSpace() core.Space {
	kinds := []string{"good", "empty", "malformed", "malformed-late", "missing", "directory", "not-a-directory", "bad-type", "nil"}
	sets := []optSet{one(), one(oLoose), one(oShort), one(oLoose, oShort), one(oPython), one(oPython, oLoose)}
	how := []string{"LoadSources", "Append", "Reload"}
	radix := []int{len(kinds), len(kinds), len(sets), len(how)}
	return core.Space{
		Name: "paths", N: core.Prod(radix), Serial: true, Note: "all pairs of path outcomes x loose x short-circuit via load, append and reload: error exactly when required, no descriptor left open",
		New: func(w *core.W) func(uint64) *core.Fail {
			dir := core.ScratchDir()
			mk := func(kind string, slot int, now bool) interface{} {
				p := filepath.Join(dir, fmt.Sprintf("f%d.ini", slot))
				_ = os.RemoveAll(p)
				switch {
				case kind == "bad-type":
					return 42
				case kind == "nil":
					return nil
				case kind == "not-a-directory":
					mustWrite(p, nil)
					return filepath.Join(p, "x.ini")
				case kind == "good" || !now:
					mustWrite(p, []byte(fmt.Sprintf("k%d=1\n", slot)))
				case kind == "empty":
					mustWrite(p, nil)
				case kind == "malformed":
					mustWrite(p, []byte("[bad\n"))
				case kind == "malformed-late":
					mustWrite(p, []byte("a=1\n[s]\nb=`open\n"))
				case kind == "directory":
					if err := os.Mkdir(p, 0o755); err != nil {
						panic(err)
					}
				}
				return p
			}
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				a, b, o, h := kinds[m[0]], kinds[m[1]], &sets[m[2]], how[m[3]]
				in := func() string { return fmt.Sprintf("%s via %s: sources %s, %s", o.name, h, a, b) }
				bad := func(k string) bool { return k == "bad-type" || k == "nil" }
				var err error
				want := false // an error is required
				var res *core.Fail
				eval := func(list ...string) {
					for _, k := range list {
						if bad(k) {
							want = true
							return
						}
					}
					for _, k := range list {
						switch k {
						case "good", "empty":
							if o.o.ShortCircuit {
								return
							}
						case "missing":
							if !o.o.Loose {
								want = true
								return
							}
						default:
							want = true
							return
						}
					}
				}
				core.Guard(in, func() {
					switch h {
					case "LoadSources":
						_, err = ini.LoadSources(o.o, mk(a, 0, true), mk(b, 1, true))
						eval(a, b)
					case "Append":
						f, e := ini.LoadSources(o.o, mk(a, 0, true))
						if e != nil {
							err = e
							eval(a)
							break
						}
						err = f.Append(mk(b, 1, true))
						eval(a, b)
					case "Reload":
						if bad(a) || bad(b) || a == "not-a-directory" || b == "not-a-directory" {
							return
						}
						f, e := ini.LoadSources(o.o, mk("good", 0, false), mk("good", 1, false))
						if e != nil {
							res = &core.Fail{Key: in(), Input: in(), Want: "good files load", Got: e.Error()}
							return
						}
						mk(a, 0, true)
						mk(b, 1, true)
						err = f.Reload()
						eval(a, b)
					}
				})
				w.Step(2)
				w.Trace()
				w.State([]byte(in()))
				if res != nil {
					return res
				}
				if (err != nil) != want {
					return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("error=%v", want), Got: fmt.Sprint(err)}
				}
				if n := openUnder(dir); n != 0 {
					return &core.Fail{Key: in(), Input: in(), Want: "no descriptor left open", Got: fmt.Sprintf("%d open", n)}
				}
				return nil
			}
		},
	}
}
