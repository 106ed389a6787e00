package checks

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// C01: loading anything terminates with a usable file or an error, and a usable
// file answers every accessor and can be written, changed, mapped and reflected.
// The oracle is "no panic, no hang, no crash" (hangs and fatal errors are
// attributed by the supervising process) and "a file or an error, never both".

type everyKind struct {
	K  string
	K2 *string              `ini:"k"`
	B  bool                 `ini:"k"`
	I  int                  `ini:"k"`
	I8 int8                 `ini:"k"`
	U  uint16               `ini:"k"`
	F  float32              `ini:"k"`
	D  time.Duration        `ini:"k"`
	T  time.Time            `ini:"k"`
	L  []string             `ini:"k"`
	LS []string             `ini:"k,,allowshadow"`
	LD []string             `ini:"k" delim:"="`
	LI []int                `ini:"k"`
	LB []bool               `ini:"k"`
	LF []float64            `ini:"k"`
	LT []time.Time          `ini:"k"`
	PI *int                 `ini:"k"`
	A  struct{ K, X int }   `ini:"a"`
	PA *struct{ K *bool }   `ini:"a"`
	N  []struct{ K string } `ini:"a,,,nonunique"`
	NP []*struct{ K uint }  `ini:"a.b,,,nonunique"`
}

type reflectKind struct {
	K  string `comment:"c"`
	I  int
	S  []string `delim:"="`
	T  time.Time
	P  *float64
	A  struct{ K, X int }    `ini:"a" comment:"s"`
	N  []*struct{ K string } `ini:"a,,,nonunique"`
	Sh []int                 `ini:"k,,allowshadow"`
}

// totalSyms: one symbol per syntactic role.
var totalSyms = []string{"k", "=", ":", "\n", " ", "\t", "\r", "\"", "\"\"\"", "`", "'", "\\", "#", ";", "[a]", "[", "]", "-", "\xff", "\x00", ","}

var oddNames = []string{"", "a", "A", ".", "a.b", "a..", "k", "\xff", "a\x00b"}

// exercise calls every accessor; what is answered is other properties' business.
func exercise(w *core.W, f *ini.File, full bool) {
	n := 0
	secs := f.Sections()
	f.SectionStrings()
	for _, name := range oddNames {
		f.HasSection(name)
		_, _ = f.GetSection(name)
		_, _ = f.SectionsByName(name)
		f.ChildSections(name)
		n += 4
	}
	for _, s := range secs {
		s.Name()
		s.Body()
		s.KeyStrings()
		s.KeysHash()
		s.ParentKeys()
		s.ChildSections()
		s.HasValue("v")
		for _, name := range oddNames {
			s.HasKey(name)
			s.Haskey(name)
			_, _ = s.GetKey(name)
			n += 3
		}
		for _, k := range s.Keys() {
			n += exerciseKey(k, full)
		}
		if full {
			var m everyKind
			_ = s.MapTo(&m)
			_ = s.StrictMapTo(&m)
			n += 2
		}
	}
	var b bytes.Buffer
	_, _ = f.WriteTo(&b)
	if full {
		_, _ = f.WriteToIndent(&b, "\t")
		var m everyKind
		_ = f.MapTo(&m)
		_ = f.StrictMapTo(&m)
		// creating accessors, then everything changed, then written again
		for _, s := range secs {
			s.Key("made")
			for _, name := range oddNames {
				s.Key(name)
				_, _ = s.NewKey(name, "v\n`\"\"\"#=")
				_, _ = s.NewBooleanKey(name)
			}
			s.SetBody("b\n[x]")
			s.Comment = "c\n\n#d"
			for _, k := range s.Keys() {
				k.Comment = "x\ny"
				_ = k.AddShadow("s")
				_ = k.AddNestedValue("n\nm")
			}
			s.DeleteKey("made")
			s.DeleteKey("k")
			n += 30
		}
		for _, name := range oddNames {
			f.Section(name)
			f.SectionWithIndex(name, 1)
			_, _ = f.NewSection(name)
			_, _ = f.NewRawSection(name, "raw")
			f.ChildSections(name)
		}
		_, _ = f.WriteTo(&b)
		p := 1.5
		v := reflectKind{K: "`\"\"\"\n", S: []string{"=", ""}, P: &p, N: []*struct{ K string }{{"x"}, {"#"}}, Sh: []int{1, 2}}
		_ = f.ReflectFrom(&v)
		_, _ = f.WriteTo(&b)
		for _, name := range oddNames {
			_ = f.DeleteSectionWithIndex(name, 1)
			_ = f.DeleteSectionWithIndex(name, 0)
			_ = f.DeleteSectionWithIndex(name, -1)
			f.DeleteSection(name)
		}
		for _, s := range secs { // handles of deleted sections
			s.Key("k").SetValue("v")
			s.KeysHash()
			s.ChildSections()
			s.ParentKeys()
			s.DeleteKey("k")
		}
		for _, name := range f.SectionStrings() {
			f.DeleteSection(name)
		}
		_, _ = f.WriteTo(&b)
		f.Section("").Key("k").SetValue("v")
		_ = f.Reload()
		_, _ = f.WriteTo(&b)
		n += 60
	}
	w.Step(n)
}

func exerciseKey(k *ini.Key, full bool) int {
	k.Name()
	k.Value()
	k.ValueWithShadows()
	k.NestedValues()
	_ = k.String()
	k.Validate(strings.TrimSpace)
	_, _ = k.Bool()
	_, _ = k.Float64()
	_, _ = k.Int()
	_, _ = k.Int64()
	_, _ = k.Uint()
	_, _ = k.Uint64()
	_, _ = k.Duration()
	_, _ = k.Time()
	_, _ = k.TimeFormat("")
	k.In("d", nil)
	k.InInt(1, []int{2})
	k.InFloat64(1, []float64{2})
	k.InUint64(1, []uint64{2})
	k.InTime(time.Time{}, nil)
	k.RangeInt(1, 5, 2)
	k.RangeFloat64(1, 0, 2)
	k.RangeTime(time.Time{}, time.Time{}, time.Time{})
	for _, d := range []string{",", "", "\\", "ab", "\xff", " "} {
		k.Strings(d)
		k.StringsWithShadows(d)
	}
	k.Ints(",")
	k.ValidFloat64s("")
	_, _ = k.StrictUint64s(",")
	k.Bools("=")
	k.ValidTimes(",")
	_, _ = k.StrictTimesFormat("", ",")
	if !full {
		return 40
	}
	k.Int64s(",")
	k.Uints(",")
	k.Uint64s(",")
	k.Float64s(",")
	k.Times(",")
	k.ValidInts(",")
	k.ValidInt64s(",")
	k.ValidUints(",")
	k.ValidUint64s(",")
	k.ValidBools(",")
	_, _ = k.StrictInts(",")
	_, _ = k.StrictInt64s(",")
	_, _ = k.StrictUints(",")
	_, _ = k.StrictBools(",")
	_, _ = k.StrictFloat64s(",")
	k.MustBool()
	k.MustInt()
	k.MustInt64()
	k.MustUint()
	k.MustUint64()
	k.MustFloat64()
	k.MustDuration()
	k.MustTime()
	k.MustString("d")
	k.MustBool(true)
	return 70
}

// loadAny loads text (and a second source) and exercises what comes out.
func loadAny(w *core.W, o *optSet, full bool, text []byte, more ...interface{}) *core.Fail {
	in := func() string { return fmt.Sprintf("%s %q %q", o.name, short(text), more) }
	var res *core.Fail
	core.Guard(in, func() {
		f, err := ini.LoadSources(o.o, text, more...)
		w.Step(1)
		w.Trace()
		if (f == nil) == (err == nil) {
			res = &core.Fail{Key: in(), Input: in(), Want: "either a file or an error", Got: fmt.Sprintf("file=%v error=%v", f != nil, err)}
			return
		}
		if err != nil {
			if err.Error() == "" {
				res = &core.Fail{Key: in(), Input: in(), Want: "an error message", Got: "none"}
			}
			w.B1 = append(w.B1[:0], "error "...)
			w.B1 = append(w.B1, ref.ErrClass(err)...)
			w.State(w.B1)
			return
		}
		w.B1 = ref.Observe(w.B1[:0], f)
		w.State(w.B1)
		exercise(w, f, full)
		if full && f.Append(text) != nil {
			exercise(w, f, false) // also after a failed load
		}
	})
	return res
}

// totalSpace explores every text under every option set.
func totalSpace(name string, sets []optSet, t texts, full bool) core.Space {
	ns := uint64(len(sets))
	return core.Space{
		Name: name, N: ns * t.n,
		Note:  fmt.Sprintf("%d texts x %d option sets; every accessor (full=%v: every mutation, mapping, reflection too) on the result", t.n, ns, full),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail { return loadAny(w, &sets[i%ns], full, t.gen(&g, i/ns)) }
		},
	}
}

var flagOpts = []opt{oInsens, oInsSec, oInsKey, oIgnCont, oIgnInl, oSkip, oBool, oShadow, oDup, oNested, oPython,
	oSpace, oUnescQ, oUnescC, oPreserve, oNonUniq, oRaw, oDebug, oShort, oLoose} // the last three do not influence how one source is read

// hairy documents mix all the syntaxes; each stops or bends somewhere.
var hairy = []string{
	"; c\n[A] # x\nK = 1 \\\n  2 ; d\nk = \"x\\\"y\" \\# z\n- = auto\nl\n[a]\n k: \"\"\"m\n\nn\"\"\" t\n[A]\nk = 'q\n  nested\n\tn2\n[b]\n`k=` = `a;\nb` ; e\n\"q\"\"=3\n",
	"k = a\n   b\n\n   c\n d\n[a]\nraw <\n= ]\n[B]\n[c]\nk = %(k)s%(x)s\nk = 2\nk = 2\n%(k)s = 3\n",
	"k = \"\"\"open\n",
	"k = `open\n[a]\n",
	"[a\n",
	"[]\n=\n",
	"[a]\n- = 1\n- = 2\n-\n[a]\n- = 3\n- : 4\n",
	"\xef\xbb\xbf[a]\r\nk=\\\r\n v\r\n\r\n\t x\r\n",
	"k=v\\",
	"k=\"\n",
	"\"\"\"=v",
	"\xff\xfe[\x00a\x00]\x00\n\x00",
	" [a] ]\n;\n#\n [ b ]\n k ",
	"k=a;b # c\nk=\"a;b\" # c\nk=a\\;b\nk=\"\\\"",
}

// flagSpace: every combination of all on/off options.
func flagSpace(flagOpts []opt) core.Space {
	n := uint64(1) << uint(len(flagOpts))
	nd := uint64(len(hairy))
	return core.Space{
		Name: "all-flag-combinations", N: n * nd,
		Note:  fmt.Sprintf("all 2^%d combinations of the on/off options x %d documents", len(flagOpts), nd),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			return func(i uint64) *core.Fail {
				bits := i / nd
				var o optSet
				for j := range flagOpts {
					if bits>>uint(j)&1 == 1 {
						flagOpts[j].set(&o.o)
					}
				}
				o.name = fmt.Sprintf("flags %b", bits)
				return loadAny(w, &o, false, []byte(hairy[i%nd]))
			}
		},
	}
}

// valueOptSpace: every combination of the non-boolean options.
func valueOptSpace() core.Space {
	delims := []string{"", "=", " ", "=: ", "\n", "[", "\"", "#", "\xff", "→", "\x00"}
	onWrite := []string{"", " ", "=", "\n", "→", "\""}
	childs := []string{"", ".", "..", "a", "\x00"}
	bufs := []int{0, -1, 1, 15, 16, 17, 4096, 1 << 16}
	raws := [][]string{nil, {""}, {"a"}, {"DEFAULT", "A"}}
	flags := []opt{{"none", func(*ini.LoadOptions) {}}, oPython, oBool, oSkip, oNonUniq, oInsens, oNested}
	docs := append([]string{""}, hairy...)
	radix := []int{len(delims), len(onWrite), len(childs), len(bufs), len(raws), len(flags), len(docs)}
	return core.Space{
		Name: "all-value-options", N: core.Prod(radix),
		Note:  fmt.Sprintf("the product of the non-boolean options' values %v x documents", radix),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				var o optSet
				o.o.KeyValueDelimiters, o.o.KeyValueDelimiterOnWrite, o.o.ChildSectionDelimiter = delims[m[0]], onWrite[m[1]], childs[m[2]]
				o.o.ReaderBufferSize, o.o.UnparseableSections = bufs[m[3]], raws[m[4]]
				flags[m[5]].set(&o.o)
				o.o.SkipUnrecognizableLines = o.o.SkipUnrecognizableLines || m[0]%2 == 0
				o.name = fmt.Sprintf("delims %q write %q child %q buf %d raw %q %s", delims[m[0]], onWrite[m[1]], childs[m[2]], bufs[m[3]], raws[m[4]], flags[m[5]].name)
				return loadAny(w, &o, false, []byte(docs[m[6]]))
			}
		},
	}
}

// longSpace: one symbol (pair) repeated very often, in every place.
func longSpace(tier string) core.Space {
	unit := []string{"a", ".", "\"", "\"\"\"", "`", "\\", "\\\n", "\n", "[", "[a]\n", "#", ";", "=", "k=\n", " ", "\t", "%(k)s", "k\n", "- = 1\n", " \n", "\n ", "\\\"", ",", "\xff", "'", "\r", "a\n b\n", "[a.a]\n", "\\#"}
	heads := []string{"", "k=", "[", "k=\"\"\"", "k=`", "[a]\nk=v\n ", "k=a\\\n", "#", "\"", "k=\""}
	lens := []int{15, 4096, 5000}
	if tier == "thorough" {
		lens = append(lens, 20000, 65535, 65536, 65537, 200000)
	}
	flags := []optSet{one(), one(oPython), one(oBool, oSkip), one(oShadow, oSkip, oBool), one(oNonUniq, oSkip, oBool), one(oNested, oShadow, oSkip, oBool), one(oUnescQ, oUnescC, oPython), one(oIgnCont, oIgnInl), one(oSpace, oPreserve), one(oRaw)}
	radix := []int{len(unit), len(heads), len(lens), len(flags)}
	return core.Space{
		Name: "long", N: core.Prod(radix),
		Note:  fmt.Sprintf("heads x repeated units up to %d times x option sets %v", lens[len(lens)-1], radix),
		Setup: ref.DefaultFormat.Apply,
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				o := &flags[m[3]]
				n := lens[m[2]]
				text := []byte(heads[m[1]] + strings.Repeat(unit[m[0]], n))
				in := func() string { return fmt.Sprintf("%s %q + %q repeated %d times", o.name, heads[m[1]], unit[m[0]], n) }
				var res *core.Fail
				core.Guard(in, func() {
					f, err := ini.LoadSources(o.o, text)
					w.Step(1)
					w.Trace()
					if (f == nil) == (err == nil) {
						res = &core.Fail{Key: in(), Input: in(), Want: "either a file or an error", Got: fmt.Sprintf("file=%v error=%v", f != nil, err)}
						return
					}
					if err != nil {
						return
					}
					secs := f.Sections()
					if len(secs) > 3 {
						secs = append(secs[:2], secs[len(secs)-1])
					}
					for _, s := range secs {
						ks := s.Keys()
						if len(ks) > 3 {
							ks = append(ks[:2], ks[len(ks)-1])
						}
						for _, k := range ks {
							exerciseKey(k, false)
						}
						s.KeysHash()
						s.ParentKeys()
						s.ChildSections()
						_, _ = s.GetKey("gone")
					}
					var b bytes.Buffer
					_, _ = f.WriteTo(&b)
				})
				return res
			}
		},
	}
}

func init() {
	register(&core.Check{
		ID:    "C01",
		Bound: "all byte strings of <=2 (3) bytes; all words of <=4 (6) of 21 syntax symbols, <=6 (7) of 8 byte-order-mark bytes, <=3 (4) of 27 lines, under option sets within 1-2 deviations; all 2^17 (2^20) combinations of the on/off options on 14 documents; all products of the other options; units repeated up to 5000 (200000) times",
		Assumptions: []string{
			"termination is judged with a limit of 90 s per case, memory with a limit of 20 GB for the process",
			"small-scope: longer inputs only combine the enumerated situations",
		},
		Spaces: func(tier string) []core.Space {
			all := append(append([]opt{}, parseOpts...), oDebug, oChild, oBuf)
			lines := []string{"", "k=v", "[a]", "[b", "k", " n", "\tm", "k=\"\"\"", "\"\"\"", "k=`", "`", "k=x\\", "\\", "#c", ";", "=", "[]", "- = 1", "k = %(k)s", "'", "\"k\"=1", "\"\"\"k\"\"\":", "k=\"", "\xff\x00", "[a.b.]", "k=1,2,\\,", "[DEFAULT]"}
			bytes256 := make([]string, 256)
			for i := range bytes256 {
				bytes256[i] = string([]byte{byte(i)})
			}
			return []core.Space{
				totalSpace("bytes", optSets(all, 0), words("", bytes256, tier2(tier, 2, 3)), false),
				totalSpace("bytes-value", optSets(all, 1), words("k=", bytes256, tier2(tier, 1, 2), "", "\n", "\nx"), true),
				totalSpace("symbols", optSets(all, 1), words("", totalSyms, 3), true),
				totalSpace("symbols-4", optSets(all, tier2(tier, 1, 2)), words("", totalSyms, 4), false),
				totalSpace("symbols-long", []optSet{one(), one(oPython), one(oBool, oSkip)}, words("", totalSyms, tier2(tier, 4, 6)), true),
				totalSpace("bom", optSets(all, 0), words("", []string{"\xef", "\xbb", "\xbf", "\xfe", "\xff", "k=", "\n", "\x00"}, tier2(tier, 6, 7)), true),
				totalSpace("lines", optSets(all, 2), lineDocs(lines, 2), false),
				totalSpace("lines-long", optSets(all, tier2(tier, 0, 1)), lineDocs(lines, tier2(tier, 3, 4)), true),
				flagSpace(flagOpts[:tier2(tier, 17, 20)]),
				valueOptSpace(),
				longSpace(tier),
				totalSpace("scaled", optSets(all, 1), scaledTexts(tier2(tier, 130, 1100)), false),
			}
		},
	})
}
