package checks

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// Scaled spaces: documents and programs in which one construct is repeated n
// times or one token is n bytes long, for every n up to 40 and for n around
// powers of two and ten. Exhaustive enumeration of small cases cannot reach
// behaviour that changes at a number of elements; these spaces do.

var sizesFull = func() []int {
	var out []int
	for i := 0; i <= 40; i++ {
		out = append(out, i)
	}
	return append(out, 48, 50, 63, 64, 65, 66, 79, 80, 81, 98, 99, 100, 101, 102, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 258, 500, 511, 512, 513, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026)
}()

// sizesLong are the lengths at which buffers and counters of tokens could change behaviour.
var sizesLong = append(append([]int{}, sizesFull...), 2047, 2048, 2049, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 65535, 65536, 65537)

// upTo keeps the sizes of at most m.
func upTo(sizes []int, m int) (out []int) {
	for _, s := range sizes {
		if s <= m {
			out = append(out, s)
		}
	}
	return out
}

type scaled struct {
	name  string
	sizes []int
	gen   func(n int) string
}

// each concatenates f(0..n-1).
func each(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

func lines(format string) func(n int) string {
	return func(n int) string { return each(n, func(i int) string { return fmt.Sprintf(format, i) }) }
}

// reps is n bytes of varying letters (so that misplaced or lost parts show).
func reps(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%c%d", 'a'+i%26, i)
	}
	return b.String()[:n]
}

func around(pre string, f func(int) string, post string) func(int) string {
	return func(n int) string { return pre + f(n) + post }
}

func str(s string) func(int) string { return func(n int) string { return strings.Repeat(s, n) } }

var scaledDocs = []scaled{
	{"keys", upTo(sizesFull, 300), around("x=1\n", lines("k%d=v\n"), "k3=again\nk0=again\n[s]\nk1=x\n")},
	{"keys-descending", upTo(sizesFull, 300), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("k%d=%d\n", n-i, i) })
	}},
	{"keys-folded", upTo(sizesFull, 130), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("%c%d=%d\n", "kK"[i%2], i/2, i) })
	}},
	{"key-repeated", upTo(sizesFull, 300), lines("k=%d\n")},
	{"key-repeated-dups", upTo(sizesFull, 130), func(n int) string {
		return lines("k=%d\n")(n) + "k=0\n" + fmt.Sprintf("k=%d\nk=%d\nk=%d\nk=\nk=\n", n/2, n-1, n)
	}},
	{"key-repeated-period", upTo(sizesFull, 130), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("k=%d\n", i%7) })
	}},
	{"sections", upTo(sizesFull, 300), around("x=1\n", lines("[s%d]\nk=v\n"), "[s3]\nk=again\nl=1\n[s0]\nk=w\n[DEFAULT]\nx=2\n")},
	{"sections-folded", upTo(sizesFull, 130), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("[%c%d]\nk%d=1\n", "sS"[i%2], i/2, i%3) })
	}},
	{"section-repeated", upTo(sizesFull, 130), lines("[s]\nk=%d\n[t]\n")},
	{"section-repeated-keys", upTo(sizesFull, 130), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("[s]\nk%d=%d\n", i, i) })
	}},
	{"auto-increment", upTo(sizesFull, 300), lines("-=%d\n")},
	{"auto-increment-sections", upTo(sizesFull, 130), func(n int) string {
		return "[s]\n" + lines("- = s%d\n")(n) + "[t]\n" + lines("-=t%d\n")(n/2) + "[s]\n-=more\n#3=x\n"
	}},
	{"auto-increment-mixed", upTo(sizesFull, 130), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("-=%d\nk%d=1\n`#%d`=y\n", i, i, i+2) })
	}},
	{"nested", upTo(sizesFull, 300), around("k=\n", lines("  n%d = x\n"), "l=1\n  m\n")},
	{"nested-keys", upTo(sizesFull, 130), lines("k%d=\n  n = x\n  m\n")},
	{"indented", upTo(sizesFull, 300), around("k=0\n", lines("  line %d\n"), "l=1\n")},
	{"indented-deeper", upTo(sizesFull, 101), func(n int) string {
		return "k=0\n" + each(n, func(i int) string { return strings.Repeat(" ", 1+i%5) + fmt.Sprintf("x%d\n", i) }) + "l=1\n"
	}},
	{"indent-width", upTo(sizesFull, 300), func(n int) string {
		return "k=0\n " + strings.Repeat(" ", n) + "x = y\n" + strings.Repeat(" ", n) + "z\n\t\tw\nl=1\n"
	}},
	{"indented-blank-lines", upTo(sizesFull, 130), func(n int) string { return "k=0\n  a\n" + strings.Repeat("\n", n) + "  b\nl=1\n" }},
	{"comments-key", upTo(sizesFull, 300), around("x=1\n", lines("# c%d\n"), "k=v ; own\nl=1\n[s]\n")},
	{"comments-section", upTo(sizesFull, 300), around("x=1\n", lines("; c%d\n"), "[s] # own\nk=1\n")},
	{"comments-end", upTo(sizesFull, 300), around("[s]\nk=1\n", lines("# c%d\n"), "")},
	{"comments-apart", upTo(sizesFull, 130), lines("# a%d\n\n; b\nk=1\n\n")},
	{"continued", upTo(sizesFull, 300), around("k=s \\\n", lines("part%d \\\n"), "end\nl=1\n")},
	{"continued-end", upTo(sizesFull, 130), around("k=s \\\n", lines("part%d\\\n"), "")},
	{"continued-many", upTo(sizesFull, 130), lines("k%d=a\\\n b # c\n")},
	{"quoted-lines", upTo(sizesFull, 300), around("k=\"\"\"s\n", lines("l%d # c\n"), "end\"\"\" ; c\nl=1\n")},
	{"backquoted-lines", upTo(sizesFull, 300), around("k=`s\n", lines(" l%d = x\n"), "end`\nl=1\n")},
	{"backquoted-open", upTo(sizesFull, 130), around("k=`s\n", lines("l%d\n"), "")},
	{"boolean", upTo(sizesFull, 300), around("", lines("flag%d\n"), "flag0\nk=v\n")},
	{"junk", upTo(sizesFull, 130), around("k=1\n", lines("junk%d\n"), "l=1\n")},
	{"raw", upTo(sizesFull, 300), around("x=1\n[a]\n", lines("raw line %d = x # y\n"), "[s]\nk=1\n")},
	{"raw-many", upTo(sizesFull, 130), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("[a]\nbody %d\n\n[s%d]\nk=1\n[b]\nx%d\n", i, i, i) })
	}},
	{"raw-end", upTo(sizesFull, 130), around("[B]\n", lines("raw %d\n"), "")},
	{"child-depth", upTo(sizesFull, 130), func(n int) string {
		return "[r]\nk=1\nl=2\n[r" + strings.Repeat(".c", n/2) + "]\nl=3\n[r" + strings.Repeat(".c", n) + "]\nm=4\n"
	}},
	{"children", upTo(sizesFull, 130), around("[r]\nk=1\n", lines("[r.c%d]\nl=%[1]d\n"), "[rr.x]\n")},
	{"blank-lines", sizesFull, func(n int) string {
		return "k=1\n" + strings.Repeat("\n", n) + "# c\n" + strings.Repeat(" \n", n) + "[s]\n" + strings.Repeat("\t\n", n) + "l=2"
	}},
	{"blanks", sizesFull, func(n int) string {
		b := strings.Repeat(" ", n)
		return b + "k" + b + "=" + b + "v" + b + "# c" + b + "\n" + b + "[" + "s" + "]" + b + "; d" + b + "\n" + b + "l=2\n"
	}},
	{"brackets", upTo(sizesFull, 300), func(n int) string {
		return "[" + strings.Repeat("[", n) + "s" + strings.Repeat("]", n) + "]\nk=" + strings.Repeat("[", n) + "\n"
	}},
	{"long-value", sizesLong, func(n int) string { return "k=" + reps(n) + "\nl=1\n" }},
	{"long-value-comment", sizesLong, func(n int) string { return "k=" + reps(n) + " ; " + reps(n/3) + "\nl=1 # c\n" }},
	{"long-quoted", sizesLong, func(n int) string {
		return "k=\"" + reps(n) + "\"\nl='" + reps(n) + "'\nm=`" + reps(n) + "` # c\nn=\"\"\"" + reps(n) + "\"\"\"\n"
	}},
	{"long-key", sizesLong, func(n int) string { return "x" + reps(n) + "=1\n\"" + reps(n) + "=\"=2\n`" + reps(n) + ":`:3\nl=1\n" }},
	{"long-section", sizesLong, func(n int) string {
		return "[x" + reps(n) + "]\nk=1\n[x" + reps(n) + ".c]\nl=2\n[" + strings.ToUpper("x"+reps(n)) + "]\nm=3\n"
	}},
	{"long-comment", sizesLong, func(n int) string {
		return "# " + reps(n) + "\nk=1 ; " + reps(n) + "\n;" + reps(n) + "\n[s] # " + reps(n) + "\nl=2\n"
	}},
	{"long-raw", sizesLong, func(n int) string { return "[a]\n" + reps(n) + "\n\n" + reps(n/2) + "\n[s]\nk=1\n" }},
	{"long-nested", sizesLong, func(n int) string { return "k=\n  " + reps(n) + "\n  x\nl=1\n" }},
	{"long-continued", upTo(sizesLong, 9000), func(n int) string { return "k=" + reps(n) + "\\\n  " + reps(n) + " \\\nz\nl=1\n" }},
	{"long-flag", sizesLong, func(n int) string { return "x" + reps(n) + "\nk=1\n" }},
	{"multibyte", upTo(sizesLong, 9000), func(n int) string {
		return strings.Repeat("é", n) + "k=" + strings.Repeat("→", n) + "x\n[" + strings.Repeat("世", n) + "s]\nÉ=1\n"
	}},
	{"quotes", upTo(sizesFull, 300), around("k=a", str(`"`), "\nl=1\n")},
	{"quotes-only", upTo(sizesFull, 66), around("k=", str(`"`), "\nl=1\n")},
	{"backquotes", upTo(sizesFull, 66), around("k=", str("`"), "x`\nl=1\n")},
	{"single-quotes", upTo(sizesFull, 300), around("k=", str("'"), "\nl=1\n")},
	{"backslashes", upTo(sizesFull, 300), around("k=a", str(`\`), "\nl=1\n")},
	{"backslash-comment", upTo(sizesFull, 130), around("k=a", str(`\`), "#b ; c\nl=1\n")},
	{"escaped-quotes", upTo(sizesFull, 130), around("k=\"a", str(`\"`), "\" # c\nl=1\n")},
	{"escaped-comments", upTo(sizesFull, 130), around("k=a", str(`\;x\#`), "\nl=1\n")},
	{"comment-symbols", upTo(sizesFull, 130), around("k=a", str("#;"), "\nl=1\n")},
	{"delimiters", upTo(sizesFull, 300), around("k", str("="), "v:w\nl:1\n")},
	{"dashes", upTo(sizesFull, 130), around("-", str("-"), "=v\n-=w\n")},
	{"returns", upTo(sizesFull, 66), around("k=v", str("\r"), "\nl=1\r\n[s]\r\nm=2\r\n")},
	{"references", upTo(sizesFull, 98), func(n int) string {
		return each(n, func(i int) string { return fmt.Sprintf("k%d=%%(k%d)s.%d\n", i, i+1, i) }) + fmt.Sprintf("k%d=end\n", n)
	}},
	{"similar-keys", sizesLong, func(n int) string {
		r := reps(n)
		return r + "1=a\n" + r + "2=b\n1" + r + "=c\n2" + r + "=d\n" + r + "1=e\n[s]\n2" + r + "=f\n" + r + "2=g\n" + r + "3\n" + r + "4\n"
	}},
	{"similar-sections", sizesLong, func(n int) string {
		r := reps(n)
		return "[" + r + "1]\nk=a\n[" + r + "2]\nk=b\n[1" + r + "]\nk=c\n[2" + r + "]\nk=d\n[" + r + "1]\nl=e\n[" + r + "2.1" + r + "]\nm=1\n[" + r + "2.2" + r + "]\nm=1\n[" + strings.ToUpper(r) + "1]\nk=z\n"
	}},
	{"similar-values", sizesLong, func(n int) string {
		r := reps(n)
		return "k=" + r + "1\nk=" + r + "2\nk=1" + r + "\nk=2" + r + "\nk=" + r + "1\n[s]\nk=\n  " + r + "1\n  " + r + "2\n"
	}},
	{"similar-references", upTo(sizesLong, 9000), func(n int) string {
		r := "x" + reps(n)
		return r + "1=a\n" + r + "2=b\ny1" + r + "=c\ny2" + r + "=d\nk=%(" + r + "2)s,%(" + r + "1)s,%(y2" + r + ")s,%(y1" + r + ")s\n"
	}},
	{"reference-list", upTo(sizesFull, 300), around("r=z\nk=", str("%(r)s,"), "\n[s]\nk=%(k)s\n")},
}

// nameSchemes give n names to elements, in an order or with a likeness that a
// search, an index or a hash of names could depend on.
var nameSchemes = []struct {
	name string
	f    func(i, n int) string
}{
	{"ascending", func(i, n int) string { return fmt.Sprintf("k%04d", i) }},
	{"descending", func(i, n int) string { return fmt.Sprintf("k%04d", n-i) }},
	{"rotated", func(i, n int) string { return fmt.Sprintf("k%04d", (i+n/3)%n) }},
	{"permuted", func(i, n int) string { return fmt.Sprintf("k%04d", permuted(i, n)) }},
	{"half-sorted", func(i, n int) string {
		if i < n/2 {
			return fmt.Sprintf("k%04d", i)
		}
		return fmt.Sprintf("k%04d", n/2+permuted(i-n/2, n-n/2))
	}},
	{"alternating", func(i, n int) string { return fmt.Sprintf("%c%04d", "Zk"[i%2], i/2) }},
	{"prefixes", func(i, n int) string { return "k" + strings.Repeat("x", n-i) }},
	{"like-start", func(i, n int) string { return reps(70) + fmt.Sprintf("%04d", permuted(i, n)) }},
	{"like-end", func(i, n int) string { return fmt.Sprintf("k%04d", permuted(i, n)) + reps(70) }},
	{"like-middle", func(i, n int) string { return fmt.Sprintf("k%d", i%10) + reps(70) + fmt.Sprint(i/10) }},
}

// permuted is the i-th number of a permutation of 0..n-1.
func permuted(i, n int) int {
	for _, p := range []int{7, 11, 13} {
		if n%p != 0 {
			return (i*p + 3) % n
		}
	}
	return i
}

func init() {
	for _, s := range nameSchemes {
		f := s.f
		scaledDocs = append(scaledDocs,
			scaled{"keys-" + s.name, upTo(sizesFull, 130), func(n int) string {
				return "[s]\n" + each(n, func(i int) string { return fmt.Sprintf("%s=%d\n", f(i, n), i) }) + "[t]\n[s]\n" +
					each(n, func(i int) string { return fmt.Sprintf("%s = again %d\nnew%d\n", f(permuted(i, n), n), i, i) })
			}},
			scaled{"sections-" + s.name, upTo(sizesFull, 130), func(n int) string {
				return each(n, func(i int) string { return fmt.Sprintf("[%s]\nk=%d\n", f(i, n), i) }) +
					each(n, func(i int) string { return fmt.Sprintf("[%s]\nk=again %d\nl%d=1\n", f(permuted(i, n), n), i, i) })
			}},
			scaled{"shadow-values-" + s.name, upTo(sizesFull, 66), func(n int) string {
				return each(n, func(i int) string { return fmt.Sprintf("k=%s\n", f(i, n)) }) +
					each(n, func(i int) string { return fmt.Sprintf("k=%s\n", f(permuted(i, n), n)) })
			}})
	}
}

// namePrograms create, look up, delete and create again keys and sections
// named by every scheme.
func namePrograms(max int, sections bool) []program {
	var out []program
	for _, s := range nameSchemes {
		f := s.f
		sizes := upTo(sizesFull, max)
		if sections {
			out = append(out, program{"sections " + s.name, sizes, func(n int) []op {
				out := repeat(n, func(i int) []op { return []op{opPut(f(i, n), "k", num("%d", i))} })
				out = append(out, repeat(n, func(i int) []op {
					x := f(permuted(i, n), n)
					return []op{opHasSection(x), opHoldSection(x), opGetKey("k"), opNewSection(x)}
				})...)
				for _, i := range positions(n) {
					x := f(permuted(i, n), n)
					out = append(out, opDelete(x), opHasSection(x), opListSections(), opPut(x, "k", "new"), opHoldSection(x), opGetKey("k"))
				}
				out = append(out, opListSections())
				return append(out, repeat(n, func(i int) []op { return []op{opDelete(f(permuted(n-1-i, n), n)), opListSections()} })...)
			}})
			continue
		}
		out = append(out, program{"keys " + s.name, sizes, func(n int) []op {
			out := append([]op{opHoldSection("s")}, repeat(n, func(i int) []op { return []op{opNewKey(f(i, n), num("%d", i))} })...)
			out = append(out, repeat(n, func(i int) []op {
				x := f(permuted(i, n), n)
				return []op{opHasKey(x), opGetKey(x), opNewKey(x, num("again %d", i)), opHoldKey(x), opSet(num("%d", i)), opHasValue(num("%d", i))}
			})...)
			for _, i := range positions(n) {
				x := f(permuted(i, n), n)
				out = append(out, opDeleteKey(x), opHasKey(x), opKey(x), opListKeys(), opDeleteKey(x), opNewKey(x, "new"), opGetKey(x))
			}
			out = append(out, opListKeys())
			return append(out, repeat(n, func(i int) []op { return []op{opDeleteKey(f(permuted(n-1-i, n), n)), opListKeys()} })...)
		}}, program{"values " + s.name, upTo(sizes, 70), func(n int) []op {
			out := []op{opHoldSection("s"), opNewKey("k", "v"), opHoldKey("k")}
			out = append(out, repeat(n, func(i int) []op { return []op{opAddShadow(f(i, n))} })...)
			out = append(out, repeat(n, func(i int) []op { return []op{opAddShadow(f(permuted(i, n), n))} })...)
			for _, i := range positions(n) {
				out = append(out, opSet(f(i, n)), opAddShadow(f(n-1-i, n)), opHasValue(f(i, n)))
			}
			return out
		}})
	}
	// Pairs of names that differ in the first or last byte only.
	out = append(out, program{"similar", upTo(sizesLong, 9000), func(n int) []op {
		r := reps(n)
		names := []string{"x" + r + "1", "x" + r + "2", "y" + r + "1", "y" + r + "2"}
		var out []op
		for i, x := range names {
			if sections {
				out = append(out, opPut(x, "k", num("%d", i)))
			} else {
				out = append(out, opHoldSection("s"), opNewKey(x, num("%d", i)), opHasKey(x))
			}
		}
		for i, x := range names {
			y := names[3-i]
			if sections {
				out = append(out, opHasSection(x), opHoldSection(x), opGetKey("k"), opDelete(x), opListSections(), opHasSection(y), opPut(y, "k", "new"), opPut(x, "k", "more"))
			} else {
				out = append(out, opGetKey(x), opHoldKey(x), opDeleteKey(x), opListKeys(), opGetKey(y), opNewKey(y, "new"), opNewKey(x, "more"), opGetKey(y))
			}
		}
		return out
	}})
	return out
}

// scaledTexts lists every document of the named templates (all when none is named).
func scaledTexts(max int, names ...string) texts {
	type pt struct {
		s scaled
		n int
	}
	var pts []pt
	for _, s := range scaledDocs {
		ok := len(names) == 0
		for _, n := range names {
			ok = ok || n == s.name || strings.HasSuffix(n, "*") && strings.HasPrefix(s.name, n[:len(n)-1])
		}
		if !ok {
			continue
		}
		for _, n := range s.sizes {
			if n <= max {
				pts = append(pts, pt{s, n})
			}
		}
	}
	return texts{uint64(len(pts)), func(g *genScratch, i uint64) []byte {
		g.buf = append(g.buf[:0], pts[i].s.gen(pts[i].n)...)
		return g.buf
	}}
}

// program is a family of operation sequences with a size.
type program struct {
	name  string
	sizes []int
	ops   func(n int) []op
}

// programSpace runs every program at every size on the library and the model:
// every answer and the final state agree. extra is tried after each program
// (none, or each one of them).
func programSpace(name string, sets []optSet, start string, ps []program, extra []op) core.Space {
	type pt struct {
		p *program
		n int
	}
	var pts []pt
	for i := range ps {
		for _, n := range ps[i].sizes {
			pts = append(pts, pt{&ps[i], n})
		}
	}
	ns, ne := uint64(len(sets)), uint64(len(extra)+1)
	return core.Space{
		Name: name, N: uint64(len(pts)) * ns * ne,
		Note:  fmt.Sprintf("%d programs of many steps (%d sizes) x %d last steps x %d option sets, library vs model after every step", len(ps), len(pts), ne, ns),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				p := pts[i/ns/ne]
				ops := p.p.ops(p.n)
				if e := i / ns % ne; e > 0 {
					ops = append(append([]op{}, ops...), extra[e-1])
				}
				word := make([]int, len(ops))
				for j := range word {
					word[j] = j
				}
				fl := runOps(w, o, start, ops, word)
				if fl != nil {
					fl.Key = fmt.Sprintf("program %s(%d) with last step %d and %s", p.p.name, p.n, i/ns%ne, o.name)
				}
				return fl
			}
		},
	}
}

// builtSpace builds a file with every program at every size and judges it.
func builtSpace(name string, nf namedFormat, sets []optSet, ps []program, j judge) core.Space {
	type pt struct {
		p *program
		n int
	}
	var pts []pt
	for i := range ps {
		for _, n := range ps[i].sizes {
			pts = append(pts, pt{&ps[i], n})
		}
	}
	ns := uint64(len(sets))
	return core.Space{
		Name: name + "-" + nf.name, N: uint64(len(pts)) * ns, Setup: nf.f.Apply,
		Note: fmt.Sprintf("files built by %d programs of many steps (%d sizes) x %d option sets", len(ps), len(pts), ns),
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				o := &sets[i%ns]
				p := pts[i/ns]
				in := func() string { return fmt.Sprintf("program %s(%d) with %s %s", p.p.name, p.n, o.name, nf.name) }
				var fl *core.Fail
				core.Guard(in, func() {
					ops := p.p.ops(p.n)
					word := make([]int, len(ops))
					for k := range word {
						word[k] = k
					}
					fl = j(w, o, build(w, o, "", ops, word), in)
				})
				return fl
			}
		},
	}
}

// repeat lists f(0..n-1).
func repeat(n int, f func(i int) []op) []op {
	var out []op
	for i := 0; i < n; i++ {
		out = append(out, f(i)...)
	}
	return out
}

func num(format string, i int) string { return fmt.Sprintf(format, i) }

// positions are the interesting indexes of n elements.
func positions(n int) []int {
	var out []int
	seen := map[int]bool{}
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

// sectionPrograms create n sections and remove, look up and create again some of them.
func sectionPrograms(max int) []program {
	sizes := upTo(sizesFull, max)
	create := func(n int) []op {
		return repeat(n, func(i int) []op { return []op{opNewSection(num("s%d", i))} })
	}
	fill := func(n int) []op {
		return repeat(n, func(i int) []op { return []op{opPut(num("s%d", i), "k", num("%d", i))} })
	}
	ps := []program{
		{"create", sizes, func(n int) []op {
			return append(create(n), opNewSection("s0"), opNewSection(num("s%d", n-1)), opListSections(), opNewSection("last"))
		}},
		{"create-at-once", sizes, func(n int) []op {
			var names []string
			for i := 0; i < n; i++ {
				names = append(names, num("s%d", i), num("t%d", i))
			}
			return []op{opNewSections(names...), opListSections(), opGetSection(num("t%d", n-1))}
		}},
		{"lookup", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op {
				return []op{opGetSection(num("s%d", i)), opHasSection(num("s%d", i)), opSection(num("s%d", i))}
			})...)
		}},
		{"delete-forward", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opDelete(num("s%d", i)), opListSections()} })...)
		}},
		{"delete-backward", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opDelete(num("s%d", n-1-i)), opHasSection("s0")} })...)
		}},
		{"delete-some", sizes, func(n int) []op {
			out := fill(n)
			for _, i := range positions(n) {
				out = append(out, opDelete(num("s%d", i)), opListSections(), opGetSection(num("s%d", i)), opSection(num("s%d", i)), opListSections(), opGetSection(num("s%d", i+1)))
			}
			return out
		}},
		{"delete-odd", sizes, func(n int) []op {
			return append(append(fill(n), repeat(n/2, func(i int) []op { return []op{opDelete(num("s%d", 2*i+1))} })...), opListSections(), opDelete(""), opNewSection("s1"), opListSections())
		}},
		{"churn", sizes, func(n int) []op {
			return append(repeat(n, func(i int) []op {
				return []op{opNewSection("a"), opPut("a", "k", num("%d", i)), opNewSection(num("s%d", i)), opDelete("a"), opHasSection("a")}
			}), opListSections(), opNewSection("a"), opListSections())
		}},
		{"children", upTo(sizes, 66), func(n int) []op {
			return append(repeat(n, func(i int) []op { return []op{opNewSection(num("p.c%d", i)), opNewSection(num("x%d", i))} }), opNewSection("p"), opChildren("p"), opDelete(num("p.c%d", n/2)), opChildren("p"))
		}},
	}
	return ps
}

// keyPrograms create n keys in a section and remove, look up and create again some of them.
func keyPrograms(max int) []program {
	sizes := upTo(sizesFull, max)
	fill := func(n int) []op {
		return append([]op{opHoldSection("s")}, repeat(n, func(i int) []op { return []op{opNewKey(num("k%d", i), num("%d", i))} })...)
	}
	return []program{
		{"create", sizes, func(n int) []op {
			return append(fill(n), opNewKey("k0", "again"), opNewKey(num("k%d", n-1), "again"), opNewBool("b"), opListKeys(), opHasValue(num("%d", n/2)), opHasValue("zz"))
		}},
		{"lookup", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opGetKey(num("k%d", i)), opHasKey(num("k%d", i)), opKey(num("k%d", i))} })...)
		}},
		{"values", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op {
				return []op{opHasValue(num("%d", i)), opHoldKey(num("k%d", i)), opSet(num("new %d", i)), opHasValue(num("%d", i))}
			})...)
		}},
		{"delete-forward", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opDeleteKey(num("k%d", i)), opHasKey(num("k%d", i+1))} })...)
		}},
		{"delete-backward", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opDeleteKey(num("k%d", n-1-i)), opListKeys()} })...)
		}},
		{"delete-some", sizes, func(n int) []op {
			out := fill(n)
			for _, i := range positions(n) {
				out = append(out, opHoldKey(num("k%d", i)), opDeleteKey(num("k%d", i)), opListKeys(), opGetKey(num("k%d", i)), opKey(num("k%d", i)), opNewKey(num("k%d", i), "new"), opListKeys(), opGetKey(num("k%d", i+1)), opSet("x"))
			}
			return out
		}},
		{"delete-odd", sizes, func(n int) []op {
			return append(append(fill(n), repeat(n/2, func(i int) []op { return []op{opDeleteKey(num("k%d", 2*i+1))} })...), opListKeys(), opNewKey("k1", "x"), opListKeys())
		}},
		{"churn", sizes, func(n int) []op {
			return append(append([]op{opHoldSection("s")}, repeat(n, func(i int) []op {
				return []op{opNewKey("a", num("%d", i)), opNewKey(num("k%d", i), ""), opDeleteKey("a"), opHasKey("a"), opKey(num("m%d", i))}
			})...), opListKeys(), opNewKey("a", "1"), opListKeys())
		}},
		{"overwrite", sizes, func(n int) []op {
			return append([]op{opHoldSection("s")}, append(repeat(n, func(i int) []op { return []op{opNewKey("a", num("%d", i)), opHoldKey("a"), opSet(num("x%d", i))} }), opListKeys())...)
		}},
		{"inherited", upTo(sizes, 66), func(n int) []op {
			return append(append([]op{opNewSection("s.t.u"), opHoldSection("s")}, repeat(n, func(i int) []op { return []op{opNewKey(num("k%d", i), num("%d", i))} })...),
				opHoldSection("s.t.u"), opListKeys(), opGetKey(num("k%d", n-1)), opKey("k0"), opHasKey(num("k%d", n/2)), opNewKey("k0", "own"), opListKeys(), opDeleteKey("k0"), opListKeys())
		}},
	}
}

// shadowPrograms give a key n shadows or nested values.
func shadowPrograms(max int) []program {
	sizes := upTo(sizesFull, max)
	return []program{
		{"distinct", sizes, func(n int) []op {
			return append(append([]op{opHoldSection("s"), opNewKey("k", "v"), opHoldKey("k")}, repeat(n, func(i int) []op { return []op{opAddShadow(num("%d", i))} })...),
				opAddShadow("0"), opAddShadow(num("%d", n/2)), opAddShadow(num("%d", n-1)), opAddShadow("v"), opAddShadow(""), opAddShadow(""), opSet("0"), opListKeys())
		}},
		{"new-key", sizes, func(n int) []op {
			return append(append([]op{opHoldSection("s")}, repeat(n, func(i int) []op { return []op{opNewKey("k", num("%d", i))} })...),
				opNewKey("k", "0"), opNewKey("k", num("%d", n/2)), opNewKey("k", num("%d", n-1)), opListKeys(), opDeleteKey("k"), opNewKey("k", "1"), opListKeys())
		}},
		{"period", sizes, func(n int) []op {
			return append([]op{opHoldSection("s"), opNewKey("k", "v"), opHoldKey("k")}, repeat(n, func(i int) []op { return []op{opAddShadow(num("%d", i%7))} })...)
		}},
		{"nested", sizes, func(n int) []op {
			return append(append([]op{opHoldSection("s"), opNewKey("k", "v"), opHoldKey("k")}, repeat(n, func(i int) []op { return []op{opAddNested(num("n%d", i%9))} })...), opListKeys())
		}},
	}
}

// indexPrograms create n sections of one name.
func indexPrograms(max int) []program {
	sizes := upTo(sizesFull, max)
	fill := func(n int) []op {
		return repeat(n, func(i int) []op {
			return []op{opNewSection("a"), opHoldIndex("a", i), opNewKey("k", num("%d", i)), opNewSection(num("x%d", i%4))}
		})
	}
	return []program{
		{"create", sizes, func(n int) []op {
			return append(fill(n), opByName("a"), opListSections(), opGetSection("a"), opWithIndex("a", n/2), opWithIndex("a", n), opByName("a"))
		}},
		{"lookup", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opWithIndex("a", i), opHoldIndex("a", i), opGetKey("k")} })...)
		}},
		{"delete-first", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opDeleteIndex("a", 0), opByName("a"), opHasSection("a")} })...)
		}},
		{"delete-last", sizes, func(n int) []op {
			return append(fill(n), repeat(n, func(i int) []op { return []op{opDeleteIndex("a", n-1-i), opByName("a")} })...)
		}},
		{"delete-some", sizes, func(n int) []op {
			out := fill(n)
			for _, i := range positions(n) {
				out = append(out, opDeleteIndex("a", i), opByName("a"), opListSections(), opNewSection("a"), opHoldIndex("a", n-1), opNewKey("k", "new"))
			}
			return append(out, opDeleteIndex("a", n), opDelete("a"), opListSections(), opNewSection("a"), opByName("a"))
		}},
		{"delete-all", sizes, func(n int) []op {
			return append(fill(n), opDelete("a"), opListSections(), opHasSection("a"), opDelete("x1"), opListSections())
		}},
	}
}

// filePrograms build files with many or long elements.
func filePrograms(max int) []program {
	sizes, long := upTo(sizesFull, max), upTo(sizesLong, 9000)
	return []program{
		{"keys", sizes, func(n int) []op {
			return repeat(n, func(i int) []op {
				return []op{opPut("s", num("k%d", i), num("%d", i)), opPut("", num("d%d", i), num("x y%d", i))}
			})
		}},
		{"key-lengths", upTo(sizes, 101), func(n int) []op {
			return append(repeat(n, func(i int) []op { return []op{opPut("s", "k"+strings.Repeat("x", (i*7)%n), num("%d", i))} }), opPut("t", "a", "1"), opPut("t", "=b", ""))
		}},
		{"one-long-key", long, func(n int) []op {
			return []op{opPut("s", "a", "1"), opPut("s", "k"+reps(n), "2"), opPut("s", "=", "3"), opPut("t", "a=b"+reps(n), "4"), opPut("t", "a", "")}
		}},
		{"long-value", long, func(n int) []op {
			return []op{opPut("s", "a", reps(n)), opPut("s", "b", reps(n)+"\n"+reps(n)), opPut("s", "c", reps(n)+"#x"), opPut("s", "d", " "+reps(n)), opPut("s", "e", "\""+reps(n)+"\"")}
		}},
		{"value-lines", sizes, func(n int) []op {
			return []op{opPut("s", "a", lines("l%d\n")(n)), opPut("s", "b", lines(" = # l%d\n")(n)), opPut("s", "c", "1")}
		}},
		{"long-section", long, func(n int) []op {
			return []op{opPut("x"+reps(n), "a", "1"), opPut("y"+reps(n)+".z", "a", "1"), opPut("t", "a", "1")}
		}},
		{"sections", sizes, func(n int) []op {
			return repeat(n, func(i int) []op {
				return []op{opPut(num("s%d", i), "k", num("%d", i)), opAnotherSection(num("e%d", i))}
			})
		}},
		{"shadows", sizes, func(n int) []op {
			return append([]op{opPut("s", "k", "v"), opPut("s", "l", "w")}, repeat(n, func(i int) []op {
				return []op{opPutShadow("s", "k", num("%d", i)), opPutShadow("s", "l", num("x=%d", i%3))}
			})...)
		}},
		{"comment-lines", sizes, func(n int) []op {
			c := strings.TrimSuffix(lines("c%d\n")(n), "\n")
			return []op{opPut("s", "k", "v"), opPut("s", "l", "v"), opPut("t", "l", "v"), opSecComment("s", c), opKeyComment("s", "l", c), opSecComment("t", "# x"+c)}
		}},
		{"long-comment", long, func(n int) []op {
			return []op{opPut("s", "k", "v"), opPut("t", "l", "v"), opSecComment("s", reps(n)), opKeyComment("s", "k", "; "+reps(n)+"\n"+reps(n))}
		}},
		{"booleans", sizes, func(n int) []op {
			return append(repeat(n, func(i int) []op { return []op{opPutBool("s", num("f%d", i))} }), opPut("s", "k", "1"))
		}},
		{"auto-increment", sizes, func(n int) []op {
			return repeat(n, func(i int) []op { return []op{opPut("s", num("#%d", i+1), num("%d", i))} })
		}},
		{"depth", upTo(sizes, 130), func(n int) []op {
			return []op{opPut("r", "k", "1"), opPut("r"+strings.Repeat(".c", n), "k", "2"), opPut("r"+strings.Repeat(".c", n/2), "l", "3")}
		}},
	}
}

// deepPrograms build chains of n nested sections.
func deepPrograms(max int) []program {
	sizes := upTo(sizesFull, max)
	name := func(d string, n int) string { return "r" + strings.Repeat(d+"c", n) }
	var out []program
	for _, d := range []string{".", "/"} {
		d := d
		out = append(out,
			program{"chain" + d, sizes, func(n int) []op {
				ops := []op{opPut("r", "root", "0")}
				ops = append(ops, repeat(n, func(i int) []op {
					return []op{opPut(name(d, i+1), num("k%d", i), num("%d", i)), opPut(name(d, i+1), "same", num("%d", i))}
				})...)
				ops = append(ops, opHoldSection(name(d, n)), opGetKey("root"), opGetKey("k0"), opHasKey(num("k%d", n/2)), opGetKey("same"), opKey("root"), opListKeys(), opChildren("r"), opChildren(name(d, n/2)))
				for _, i := range positions(n) {
					ops = append(ops, opDelete(name(d, i+1)), opGetKey("same"), opGetKey("root"), opGetKey(num("k%d", i)), opListKeys(), opChildren("r"))
				}
				return ops
			}},
			program{"gap" + d, sizes, func(n int) []op {
				return []op{opPut("r", "root", "0"), opSection(name(d, n)), opHoldSection(name(d, n)), opGetKey("root"), opHasKey("root"), opKey("root"), opListKeys(), opChildren("r"), opNewKey("root", "own"), opGetKey("root"), opDeleteKey("root"), opGetKey("root")}
			}},
			program{"long" + d, sizesLong, func(n int) []op {
				p := "x" + reps(n)
				return []op{opPut(p, "root", "0"), opSection(p + d + "c"), opHoldSection(p + d + "c"), opGetKey("root"), opSection(p + "c"), opHoldSection(p + "c"), opGetKey("root"), opListKeys(), opChildren(p)}
			}})
	}
	return out
}

// manySources loads n sources at once, appends them one by one, or in two
// halves with reloads between, and compares with the overlay of the model.
func manySources(sets []optSet, max int) core.Space {
	sizes := upTo(sizesFull, max)[1:]
	radix := []int{len(sizes), len(sets), 4}
	return core.Space{
		Name: "many-sources", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d numbers of sources x %d option sets, loaded at once, appended one by one or together, reloaded", len(sizes), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			dir := core.ScratchDir()
			return func(i uint64) *core.Fail {
				m := core.Mixed(i, radix, nil)
				n, o, how := sizes[m[0]], &sets[m[1]], m[2]
				in := func() string { return fmt.Sprintf("%d sources with %s, way %d", n, o.name, how) }
				var srcs []interface{}
				var ms []msrc
				for j := 0; j < n; j++ {
					c := fmt.Sprintf("# c%d\n[s]\nk=%d\nl%d=x\n[t%d]\nm=%d\n", j, j, j, j%5, j%3)
					if j%7 == 6 {
						c = ""
					}
					ms = append(ms, msrc{"ok", c})
					if j%4 == 3 {
						p := filepath.Join(dir, fmt.Sprintf("%d.ini", j))
						mustWrite(p, []byte(c))
						srcs = append(srcs, p)
					} else {
						srcs = append(srcs, []byte(c))
					}
				}
				d := ref.New(o.o)
				var fl *core.Fail
				core.Guard(in, func() {
					var f *ini.File
					var err error
					first := n
					if how == 1 {
						first = 1
					} else if how == 2 {
						first = n / 2
					}
					if first == 0 {
						first = 1
					}
					f, err = ini.LoadSources(o.o, srcs[0], srcs[1:first]...)
					modelReload(d, ms[:first])
					step := 1
					if how == 2 {
						step = n - first
					}
					for j := first; err == nil && j < n; j += step {
						err = f.Append(srcs[j], srcs[j+1:j+step]...)
						modelReload(d, ms[:j+step])
					}
					if how == 3 && err == nil {
						for r := 0; r < 3; r++ {
							if err = f.Reload(); err != nil {
								break
							}
							modelReload(d, ms)
						}
					}
					w.Step(n)
					w.Trace()
					if err != nil {
						fl = &core.Fail{Key: in(), Input: in(), Want: "no error", Got: err.Error()}
						return
					}
					w.B1, w.B2 = d.Observe(w.B1[:0]), ref.Observe(w.B2[:0], f)
					w.State(w.B1)
					if !bytes.Equal(w.B1, w.B2) {
						fl = &core.Fail{Key: in(), Input: in(), Want: string(w.B1), Got: string(w.B2)}
					}
				})
				return fl
			}
		},
	}
}
