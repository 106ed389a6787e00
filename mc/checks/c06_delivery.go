package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// sameAsModel loads one source and compares with the model's reading of text.
func sameAsModel(w *core.W, o *optSet, text []byte, src interface{}, in func() string) *core.Fail {
	d := ref.New(o.o)
	merr := d.Parse(string(text))
	var f *ini.File
	var err error
	core.Guard(in, func() { f, err = ini.LoadSources(o.o, src) })
	w.Trace()
	if a, b := ref.ModelErrClass(merr), ref.ErrClass(err); a != b {
		return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("error class %q", a), Got: fmt.Sprintf("%q (%v)", b, err)}
	}
	if merr != nil {
		return nil
	}
	w.B1 = d.Observe(w.B1[:0])
	core.Guard(in, func() { w.B2 = ref.Observe(w.B2[:0], f) })
	w.State(w.B1)
	if !bytes.Equal(w.B1, w.B2) {
		return &core.Fail{Key: in(), Input: in(), Want: short(w.B1), Got: short(w.B2)}
	}
	return nil
}

func short(b []byte) string {
	if len(b) > 1500 {
		return fmt.Sprintf("%q ... (%d bytes)", b[:1500], len(b))
	}
	return fmt.Sprintf("%q", b)
}

var cutDocs = []string{
	"", "\n", "a=1", "a=1\nb=2\n", "\xef\xbb\xbfa=1\n", "\xfe\xffa=1", "\xff\xfe[s]\nk=1", "\xef\xbba=1", "\xef", "\xef\xbb", "\xfe", "\xfea=1",
	"[s]\r\na=1\r\n", "a=`x\ny`\nb=1", "a=\"\"\"b\nc\"\"\"", "a=1\\\n2\nb", "a=1\n  2\n\t3", "a=1\n 2\nb=3\n", "k=\n  v\n w\nl=", "#c\n;d\na=1#e",
	"a", "=1", "[s", "a=`x", "k=é→\n#ñ", "[a]\n<1>\n x\n", "[a]\nb\n[c]\nd=1", "\"a=b\"=c\n", "a = ' b' ", "\n\n[s]\n\n", "a=\\\n\\\n", "k=\r\n  v\r\n", "a=\n\n  b\n",
}

func init() {
	register(&core.Check{
		ID:    "C06",
		Bound: "33 documents of <=14 bytes under every composition into reads x end-of-file style x empty reads x reader kind; every byte-order-mark prefix over 8 bytes (length <=4) likewise; constructs at every offset within +-16 (40) of the 4096/5000/8192 byte boundaries x 6 read sizes x 5 buffer sizes; every source kind; all ordered pairs (thorough: triples) of the documents as sources x 3 deliveries each, loaded at once or appended; LF vs CRLF of all <=3 (4) line documents",
		Assumptions: []string{
			"reference parser as in C02-C05; delivery does not enter the reference at all",
			"readers obey the io.Reader contract and give at most one empty read in a row",
		},
		Spaces: func(tier string) []core.Space {
			sets := []optSet{one(), one(oPython), one(oNested, oBool), one(oPython, oBool, oSkip), one(oRaw, oBool)}
			if tier == "thorough" {
				sets = append(optSets([]opt{oPython, oNested, oBool, oIgnCont, oUnescQ, oSpace}, 2), one(oRaw))
			}
			var sp []core.Space
			docs := cutDocs
			for _, extra := range []int{0, 1} {
				if extra == 1 {
					docs = docs[:0:0]
					bom := []string{"\xef", "\xbb", "\xbf", "\xfe", "\xff", "a", "=", "\n"}
					l := tier2(tier, 4, 5)
					var word []int
					for i := uint64(0); i < core.WordsUpTo(len(bom), l); i++ {
						word = core.Word(len(bom), i, word)
						docs = append(docs, string(core.Concat(bom, word, nil)))
					}
				}
				docs := docs
				// prefix sums of 2^(n-1) compositions
				var off []uint64
				var total uint64
				for _, d := range docs {
					off = append(off, total)
					c := uint64(1)
					if len(d) > 1 {
						c = 1 << uint(len(d)-1)
					}
					total += c
				}
				csets := sets
				if extra == 1 {
					csets = []optSet{one(), one(oPython, oBool)}
				}
				name := []string{"cuts", "bom-cuts"}[extra]
				mode := uint64(8 * len(csets))
				sp = append(sp, core.Space{
					Name: name, N: total * mode,
					Note: fmt.Sprintf("%d documents, every composition into reads (%d) x {EOF alone, with data} x {no, one empty read} x {reader, read-closer} x %d option sets", len(docs), total, len(csets)),
					New: func(w *core.W) func(uint64) *core.Fail {
						return func(i uint64) *core.Fail {
							m := i % mode
							c := i / mode
							lo, hi := 0, len(off)
							for hi-lo > 1 {
								mid := (lo + hi) / 2
								if off[mid] <= c {
									lo = mid
								} else {
									hi = mid
								}
							}
							text := []byte(docs[lo])
							o := &csets[m/8]
							s := &script{data: text, cuts: c - off[lo], eof: m&1 == 1, zeros: m&2 == 2}
							var src interface{} = s
							if m&4 == 4 {
								src = scriptCloser{s}
							}
							w.Step(1)
							in := func() string {
								return fmt.Sprintf("%s %q cut after bytes %b, eof-with-data=%v empty-reads=%v closer=%v", o.name, text, c-off[lo], m&1 == 1, m&2 == 2, m&4 == 4)
							}
							return sameAsModel(w, o, text, src, in)
						}
					},
				})
			}

			sp = append(sp, boundarySpace(tier), longLineSpace(tier), severalSources(append(sets[:len(sets):len(sets)], one(oShadow), one(oNonUniq)), tier == "thorough"))

			// source kinds
			kinds := []string{"path", "bytes", "bytes.Buffer", "strings.Reader", "os.File", "bufio.Reader", "io.NopCloser", "MultiReader", "LimitReader"}
			ksets := optSets([]opt{oPython, oNested, oBool, oInsens}, 2)
			radix := []int{len(kinds), len(cutDocs), len(ksets)}
			sp = append(sp, core.Space{
				Name: "kinds", N: core.Prod(radix), Note: "every source kind x 33 documents x option sets",
				New: func(w *core.W) func(uint64) *core.Fail {
					dir := core.ScratchDir()
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, radix, m)
						text := []byte(cutDocs[m[1]])
						o := &ksets[m[2]]
						path := filepath.Join(dir, "src.ini")
						var src interface{}
						switch kinds[m[0]] {
						case "path":
							mustWrite(path, text)
							src = path
						case "bytes":
							src = text
						case "bytes.Buffer":
							src = bytes.NewBuffer(append([]byte(nil), text...))
						case "strings.Reader":
							src = strings.NewReader(string(text))
						case "os.File":
							mustWrite(path, text)
							fh, err := os.Open(path)
							if err != nil {
								panic(err)
							}
							src = fh
						case "bufio.Reader":
							src = bufio.NewReaderSize(bytes.NewReader(text), 16)
						case "io.NopCloser":
							src = io.NopCloser(bytes.NewReader(text))
						case "MultiReader":
							h := len(text) / 2
							src = io.MultiReader(bytes.NewReader(text[:h]), bytes.NewReader(text[h:]))
						case "LimitReader":
							src = io.LimitReader(bytes.NewReader(append(append([]byte(nil), text...), "\nz=9\n"...)), int64(len(text)))
						}
						w.Step(1)
						in := func() string { return fmt.Sprintf("%s %q as %s", o.name, text, kinds[m[0]]) }
						return sameAsModel(w, o, text, src, in)
					}
				},
			})

			// LF and CRLF
			lines := []string{"a=1", "b = 2 ; c", "[s]", "[t] # d", "# e", "; f g", "", "x=\\", "y=\"q\"", "\"k\" = z", "-=p", "junk", "  n = m", "w=`v`", "u=\"\"\"t\"\"\"", "k=", "=1", "[bad"}
			t := lineDocs(lines, tier2(tier, 3, 4))
			csets := optSets([]opt{oNested, oBool, oSkip, oIgnInl, oIgnCont, oSpace, oShadow, oUnescQ, oUnescC, oPreserve, oInsens, oNonUniq}, 1)
			ns := uint64(len(csets))
			sp = append(sp, core.Space{
				Name: "crlf", N: t.n * ns, Note: fmt.Sprintf("%d documents of lines x %d option sets, loaded with LF and with CRLF line ends", t.n, ns),
				New: func(w *core.W) func(uint64) *core.Fail {
					var g genScratch
					return func(i uint64) *core.Fail {
						text := t.gen(&g, i/ns)
						o := &csets[i%ns]
						crlf := bytes.ReplaceAll(text, []byte("\n"), []byte("\r\n"))
						in := func() string { return fmt.Sprintf("%s %q vs CRLF", o.name, text) }
						var res *core.Fail
						core.Guard(in, func() {
							f, err := ini.LoadSources(o.o, text)
							f2, err2 := ini.LoadSources(o.o, crlf)
							w.Step(2)
							w.Trace()
							c1, c2 := strings.TrimSpace(ref.ErrClass(err)), strings.TrimSpace(ref.ErrClass(err2))
							if c1 != c2 {
								res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", c1), Got: fmt.Sprintf("%q", c2)}
								return
							}
							if err != nil {
								return
							}
							w.B1 = ref.Observe(w.B1[:0], f)
							w.B2 = ref.Observe(w.B2[:0], f2)
							w.State(w.B1)
							if !bytes.Equal(w.B1, w.B2) {
								res = &core.Fail{Key: in(), Input: in(), Want: short(w.B1), Got: short(w.B2)}
							}
						})
						return res
					}
				},
			})
			return sp
		},
	})
}

// boundarySpace puts constructs across the reader's buffer boundaries.
func boundarySpace(tier string) core.Space {
	type cons struct {
		text string
		o    optSet
	}
	py := one(oPython)
	cs := []cons{
		{"key = value ; c\nnext=1\n", one()}, {"[section] # c\nk=1\n", one()}, {"k=`multi\nline` # c\nn=1\n", one()},
		{"k=\"\"\"multi\n\"line\" \"\"\"\nn=1", one()}, {"k=one \\\n two \\\nthree\nn=1\n", one()}, {"# comment\n; more\r\nk=1\r\n", one()},
		{"k=a\n  b\n\tc\nn=1\n", py}, {"k=\n  b\n  c", py}, {"k=`q` ;c\n  x=1\n", py}, {"k=\n  nested = 1\n  two=2\n[s]\nk=\n a=1", one(oNested)},
		{"bool\nk=1\nother bool # c\n", one(oBool)}, {"[a]\nraw <1>\n  raw 2\n\n[c]\nk=1\n", one(oRaw)}, {"k=é→ö\n[ü]\nñ=1\n", one()}, {"k=1\nk=2\nk=1\n", one(oShadow)},
		{"k=\"a \\\"b\\\" c\" # d\nn=1\n", one(oUnescQ)},
	}
	bufs := []int{0, 100, 4096, 4097, 5000, 9000}
	chunks := []int{0, 1, 7, 4095, 4096, 4097}
	around := tier2(tier, 16, 40)
	bases := []int{4096, 5000, 8192}
	if tier == "thorough" {
		bases = append(bases, 4097, 9000, 12288, 16384)
	}
	fillers := []string{"# filler comment line\n", "f=1\n", "\n"}
	radix := []int{len(cs), len(bufs), len(chunks), len(bases), 2*around + 1, len(fillers), 2}
	return core.Space{
		Name: "boundaries", N: core.Prod(radix),
		Note: fmt.Sprintf("%d constructs at every offset within +-%d of %v, reader buffer sizes %v, read sizes %v, 3 fillers, from a reader and from memory", len(cs), around, bases, bufs, chunks),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			var buf []byte
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				if m[6] == 1 && m[2] != 0 {
					return nil // memory sources have one way of delivery
				}
				c := &cs[m[0]]
				o := c.o
				o.o.ReaderBufferSize = bufs[m[1]]
				at := bases[m[3]] + m[4] - around
				fill := fillers[m[5]]
				buf = buf[:0]
				for len(buf)+len(fill) <= at-2 {
					buf = append(buf, fill...)
				}
				for len(buf) < at-1 {
					buf = append(buf, ';')
				}
				buf = append(buf, '\n')
				buf = append(buf, c.text...)
				var src interface{} = buf
				if m[6] == 0 {
					src = &script{data: buf, chunk: chunks[m[2]], eof: m[4]&1 == 1}
				}
				w.Step(1)
				in := func() string {
					return fmt.Sprintf("%s ReaderBufferSize=%d: %d bytes of %q then %q, reads of %d", o.name, bufs[m[1]], at, fill, c.text, chunks[m[2]])
				}
				return sameAsModel(w, &o, buf, src, in)
			}
		},
	}
}

// longText is a text of n bytes no part of which repeats.
func longText(n int) string {
	var b []byte
	for i := 0; len(b) < n; i++ {
		b = append(b, fmt.Sprintf("<%d>", i)...)
	}
	return string(b[:n])
}

// longLineSpace makes one part of a document longer than the reader's buffer.
func longLineSpace(tier string) core.Space {
	type cons struct {
		pre, post string
		o         optSet
	}
	py := one(oPython)
	cs := []cons{
		{"a=0\nk = ", " ; c\nnext=1\n", one()}, {"a=0\n", " = 1\nnext=1\n", one()}, {"a=0\n[", "] # c\nk=1\n", one()}, {"a=0\n# ", "\nk=1\n", one()},
		{"a=0\nk=v # ", "\nn=1\n", one()}, {"a=0\nk=`", "\nline` # c\nn=1\n", one()}, {"a=0\nk=`x\n", "` # c\nn=1\n", one()}, {"a=0\nk=\"\"\"x\n y ", "\n\"\"\"\nn=1", one()},
		{"a=0\nk=x\\\n", "\\\nz\nn=1\n", one()}, {"a=0\nk=", "\\\nz\nn=1\n", one()}, {"a=0\nk=x\n  ", "\n  z\nn=1\n", py}, {"a=0\nk=", "\n  z\nn=1\n", py},
		{"a=0\nk=\n  ", "\n  z\nn=1\n", one(oNested)}, {"a=0\n", "\nn=1\n", one(oBool)}, {"a=0\n[a]\n", "\nz\n[c]\nk=1\n", one(oRaw)}, {"a=0\n", "\nn=1\n", one(oSkip)},
		{"", "", one(oBool)}, {"\"", "\" = 1\n", one()}, {"a=0\nk=\"", "\"\nn=1\n", one(oUnescQ)}, {"a=1\nk=2\nk=", "\nn=1\n", one(oShadow)},
	}
	bufs := []int{0, 4097, 9000}
	chunks := []int{0, 1, 1000, 4095, 4096, 4097}
	around := tier2(tier, 14, 40)
	bases := []int{4090, 8180}
	if tier == "thorough" {
		bases = append(bases, 4995, 9000, 12280, 16375)
	}
	fills := []string{longText(40000), strings.Repeat("x ", 20000)}
	radix := []int{len(cs), len(bufs), len(chunks), len(bases), 2*around + 1, len(fills), 2}
	return core.Space{
		Name: "long-lines", N: core.Prod(radix),
		Note: fmt.Sprintf("%d constructs one part of which has every length within +-%d of %v, reader buffer sizes %v, read sizes %v, a text without repetition and one of words, from a reader and from memory", len(cs), around, bases, bufs, chunks),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			var buf []byte
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				if m[6] == 1 && m[2] != 0 {
					return nil // memory sources have one way of delivery
				}
				c := &cs[m[0]]
				o := c.o
				o.o.ReaderBufferSize = bufs[m[1]]
				n := bases[m[3]] + m[4] - around
				buf = append(append(append(buf[:0], c.pre...), fills[m[5]][:n]...), c.post...)
				var src interface{} = buf
				if m[6] == 0 {
					src = &script{data: buf, chunk: chunks[m[2]], eof: m[4]&1 == 1}
				}
				w.Step(1)
				in := func() string {
					return fmt.Sprintf("%s ReaderBufferSize=%d: %q, %d bytes of %.10q..., %q, reads of %d", o.name, bufs[m[1]], c.pre, n, fills[m[5]], c.post, chunks[m[2]])
				}
				return sameAsModel(w, &o, buf, src, in)
			}
		},
	}
}

// severalSources: every source of a load is read like a single one, wherever it
// stands and however it is delivered.
func severalSources(sets []optSet, three bool) core.Space {
	docs := cutDocs
	ways := []string{"bytes", "a byte at a time", "buffered closer"}
	deliver := func(text, way string) interface{} {
		switch way {
		case "a byte at a time":
			return &script{data: []byte(text), chunk: 1}
		case "buffered closer":
			return scriptCloser{&script{data: []byte(text), chunk: 3, eof: true, zeros: true}}
		}
		return []byte(text)
	}
	last := 1
	if three {
		last = len(docs)
	}
	radix := []int{len(ways), len(ways), 2, len(sets), len(docs), len(docs), last}
	return core.Space{
		Name: "several-sources", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("all ordered pairs (thorough: triples) of %d documents as sources of one load, or appended later, x 3 deliveries each x %d option sets", len(docs), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) (res *core.Fail) {
				m = core.Mixed(i, radix, m)
				o := &sets[m[3]]
				texts, kinds := []string{docs[m[4]], docs[m[5]]}, []string{ways[m[0]], ways[m[1]]}
				if three {
					texts, kinds = append(texts, docs[m[6]]), append(kinds, ways[m[0]])
				}
				add := m[2] == 1
				if add && m[0] != 0 { // a reader is drained by the first load
					return nil
				}
				in := func() string { return fmt.Sprintf("%s %q as %q, appended=%v", o.name, texts, kinds, add) }
				fail := func(want, got string) { res = &core.Fail{Key: in(), Input: in(), Want: want, Got: got} }
				core.Guard(in, func() {
					d := ref.New(o.o)
					var merr, err error
					var f *ini.File
					var rest []interface{}
					for j := range texts[1:] {
						rest = append(rest, deliver(texts[j+1], kinds[j+1]))
					}
					d.StartLoad()
					if add {
						if merr = d.Parse(texts[0]); merr == nil {
							d.StartLoad()
						}
					}
					for _, t := range texts {
						if merr == nil {
							merr = d.Parse(t)
						}
					}
					if add {
						if f, err = ini.LoadSources(o.o, []byte(texts[0])); err == nil {
							err = f.Append(rest[0], rest[1:]...)
						}
					} else {
						f, err = ini.LoadSources(o.o, deliver(texts[0], kinds[0]), rest...)
					}
					w.Step(len(texts))
					w.Trace()
					if a, b := ref.ModelErrClass(merr), ref.ErrClass(err); a != b {
						fail(fmt.Sprintf("error class %q", a), fmt.Sprintf("%q (%v)", b, err))
						return
					}
					if merr != nil {
						return
					}
					w.B1, w.B2 = d.Observe(w.B1[:0]), ref.Observe(w.B2[:0], f)
					w.State(w.B1)
					if !bytes.Equal(w.B1, w.B2) {
						fail(string(w.B1), string(w.B2))
					}
				})
				return
			}
		},
	}
}
