package checks

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
)

// refInt reads an integer literal with exact arithmetic (sign, base prefix,
// underscores as in Go literals): the value, and whether the text is one.
func refInt(s string, signed bool) (*big.Int, bool) {
	neg := false
	t := s
	if signed && t != "" && (t[0] == '+' || t[0] == '-') {
		neg = t[0] == '-'
		t = t[1:]
	}
	base := 10
	prefix := false
	if len(t) >= 2 && t[0] == '0' {
		switch t[1] {
		case 'x', 'X':
			base = 16
		case 'b', 'B':
			base = 2
		case 'o', 'O':
			base = 8
		default:
			base = 8
			t = "0o" + t[1:]
		}
		prefix = true
		t = t[2:]
	}
	// underscores only between digits or between prefix and digit
	if t == "" {
		return nil, false
	}
	if strings.HasSuffix(t, "_") || strings.Contains(t, "__") || (!prefix && t[0] == '_') {
		return nil, false
	}
	v := new(big.Int)
	for _, c := range t {
		if c == '_' {
			continue
		}
		d := -1
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d < 0 || d >= base {
			return nil, false
		}
		v.Mul(v, big.NewInt(int64(base))).Add(v, big.NewInt(int64(d)))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

// rangeErr: the text starts as an integer that exceeds the machine range.
func rangeErr(s string, signed bool) bool {
	var err error
	if signed {
		_, err = strconv.ParseInt(s, 0, 64)
	} else {
		_, err = strconv.ParseUint(s, 0, 64)
	}
	return errors.Is(err, strconv.ErrRange)
}

var refBools = map[string]bool{
	"1": true, "t": true, "T": true, "TRUE": true, "true": true, "True": true, "YES": true, "yes": true, "Yes": true, "y": true, "ON": true, "on": true, "On": true,
	"0": false, "f": false, "F": false, "FALSE": false, "false": false, "False": false, "NO": false, "no": false, "No": false, "n": false, "OFF": false, "off": false, "Off": false,
}

var someTimes = []time.Time{
	{}, time.Date(2000, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(1999, 12, 31, 23, 0, 0, 0, time.FixedZone("", -5*3600)), time.Date(2000, 1, 1, 4, 0, 0, 0, time.UTC),
}

// scalarHarness reads one key through every scalar accessor.
type scalarHarness struct {
	w *core.W
	f *ini.File
	s *ini.Section
	k *ini.Key
	// resolve turns the raw value into the text the accessors see
	resolve func(string) string
}

func newScalarHarness(w *core.W, mapper bool) *scalarHarness {
	f, err := ini.Load([]byte("n=7\n[s]\n; c\nk=v\nother=o\n"))
	if err != nil {
		panic(err)
	}
	h := &scalarHarness{w: w, f: f, s: f.Section("s"), resolve: func(s string) string { return s }}
	h.k = h.s.Key("k")
	if mapper {
		f.ValueMapper = func(s string) string { return strings.ReplaceAll(s, "$", "1") }
		h.resolve = func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, "$", "1"), "%(n)s", "7") }
	}
	return h
}

type badFn func(q string, want, got interface{}) bool

// one text through everything; returns the first disagreement.
func (h *scalarHarness) check(raw string) *core.Fail {
	var fl *core.Fail
	in := func() string { return fmt.Sprintf("value %q", raw) }
	eq := func(q string, want, got interface{}) bool {
		if want == got {
			return true
		}
		if a, ok := want.(float64); ok {
			if b, ok := got.(float64); ok && math.Float64bits(a) == math.Float64bits(b) || ok && a != a && b != b {
				return true
			}
		}
		if fl == nil {
			fl = &core.Fail{Key: in() + " " + q, Input: in() + " " + q, Want: fmt.Sprintf("%#v", want), Got: fmt.Sprintf("%#v", got)}
		}
		return false
	}
	k := h.k
	set := func() { k.SetValue(raw) }
	// stored must be what the key holds everywhere
	stored := func(q, want string) {
		if k.Value() != want || h.s.KeysHash()["k"] != want || k.Comment != "; c" || h.s.Key("other").Value() != "o" {
			eq(q+" stored value", want, fmt.Sprintf("value %q hash %q comment %q", k.Value(), h.s.KeysHash()["k"], k.Comment))
		}
	}
	// must runs a Must accessor without default, and with two defaults
	must := func(q string, valid, lenient bool, val, zero interface{}, call func(bool) interface{}, def interface{}, defText string) {
		set()
		if !valid {
			val = zero
		}
		got := call(false)
		if !lenient {
			eq(q+"()", val, got)
		}
		stored(q+"()", raw)
		got = call(true)
		if valid {
			eq(q+"(default)", val, got)
			stored(q+"(default)", raw)
		} else {
			eq(q+"(default)", def, got)
			stored(q+"(default)", defText)
		}
		h.w.Step(2)
	}
	core.Guard(in, func() {
		set()
		text := h.resolve(raw)
		eq("String", text, k.String())
		isErr := func(q string, want bool, err error) { eq(q+" error", want, err != nil) }

		// strings
		must("MustString", text != "", false, text, "", func(d bool) interface{} {
			if !d {
				k.MustString("") // storing the empty default changes nothing
				return k.String()
			}
			return k.MustString("dflt")
		}, "dflt", "dflt")
		set()
		eq("In", map[bool]string{true: text, false: "d"}[text == "1" || text == ""], k.In("d", []string{"1", ""}))
		eq("In none", "d", k.In("d", nil))

		// booleans
		bv, bok := refBools[text]
		b, err := k.Bool()
		isErr("Bool", !bok, err)
		eq("Bool", bv, b)
		for _, d := range []bool{true, false} {
			d := d
			must("MustBool", bok, false, bv, false, func(x bool) interface{} {
				if !x {
					return k.MustBool()
				}
				return k.MustBool(d, !d)
			}, d, strconv.FormatBool(d))
		}
		set()

		// integers
		iv, iok := refInt(text, true)
		ifits := iok && iv.IsInt64()
		var i64 int64
		if ifits {
			i64 = iv.Int64()
		}
		gi, err := k.Int()
		isErr("Int", !ifits, err)
		g64, err := k.Int64()
		isErr("Int64", !ifits, err)
		if ifits {
			eq("Int", int(i64), gi)
			eq("Int64", i64, g64)
		}
		// without a default an out-of-range text gives zero or the nearest number
		must("MustInt", ifits, rangeErr(text, true), int(i64), 0, func(x bool) interface{} {
			if !x {
				return k.MustInt()
			}
			return k.MustInt(-42, 1)
		}, -42, "-42")
		must("MustInt64", ifits, rangeErr(text, true), i64, int64(0), func(x bool) interface{} {
			if !x {
				return k.MustInt64()
			}
			return k.MustInt64(math.MinInt64, 1)
		}, int64(math.MinInt64), "-9223372036854775808")
		set()
		uv, uok := refInt(text, false)
		ufits := uok && uv.IsUint64()
		var u64 uint64
		if ufits {
			u64 = uv.Uint64()
		}
		gu, err := k.Uint()
		isErr("Uint", !ufits, err)
		gu64, err := k.Uint64()
		isErr("Uint64", !ufits, err)
		if ufits {
			eq("Uint", uint(u64), gu)
			eq("Uint64", u64, gu64)
		}
		must("MustUint", ufits, rangeErr(text, false), uint(u64), uint(0), func(x bool) interface{} {
			if !x {
				return k.MustUint()
			}
			return k.MustUint(42, 1)
		}, uint(42), "42")
		must("MustUint64", ufits, rangeErr(text, false), u64, uint64(0), func(x bool) interface{} {
			if !x {
				return k.MustUint64()
			}
			return k.MustUint64(math.MaxUint64, 1)
		}, uint64(math.MaxUint64), "18446744073709551615")
		set()
		for _, c := range [][]int64{nil, {0}, {7}, {-1, 8}, {10, 7, i64}} {
			w64, wu := int64(99), uint64(99)
			var ci []int
			var cu []uint
			var cu64 []uint64
			for _, x := range c {
				if ifits && x == i64 {
					w64 = i64
				}
				ci = append(ci, int(x))
				if x >= 0 {
					cu, cu64 = append(cu, uint(x)), append(cu64, uint64(x))
					if ufits && uint64(x) == u64 {
						wu = u64
					}
				}
			}
			eq(fmt.Sprint("InInt", c), int(w64), k.InInt(99, ci))
			eq(fmt.Sprint("InInt64", c), w64, k.InInt64(99, c))
			eq(fmt.Sprint("InUint", c), uint(wu), k.InUint(99, cu))
			eq(fmt.Sprint("InUint64", c), wu, k.InUint64(99, cu64))
		}
		for _, r := range [][2]int64{{0, 0}, {-1, 1}, {1, 9}, {7, 7}, {9, 1}, {math.MinInt64, math.MaxInt64}, {i64, i64 + 1}, {i64 - 1, i64}} {
			want := int64(99)
			if ifits && i64 >= r[0] && i64 <= r[1] {
				want = i64
			}
			eq(fmt.Sprint("RangeInt64", r), want, k.RangeInt64(99, r[0], r[1]))
			eq(fmt.Sprint("RangeInt", r), int(want), k.RangeInt(99, int(r[0]), int(r[1])))
		}

		// floats (strconv is the trusted decimal-to-float conversion)
		fv, ferr := strconv.ParseFloat(text, 64)
		fok := ferr == nil
		gf, err := k.Float64()
		isErr("Float64", !fok, err)
		if fok {
			eq("Float64", fv, gf)
		}
		must("MustFloat64", fok, ferr != nil && fv != 0, fv, 0.0, func(x bool) interface{} {
			if !x {
				return k.MustFloat64()
			}
			return k.MustFloat64(1.5e22, 1)
		}, 1.5e22, "15000000000000000000000")
		must("MustFloat64", fok, ferr != nil && fv != 0, fv, 0.0, func(x bool) interface{} {
			if !x {
				return k.MustFloat64()
			}
			return k.MustFloat64(-0.1)
		}, -0.1, "-0.1")
		set()
		for _, c := range [][]float64{nil, {0}, {1, 7}, {fv}} {
			want := 99.5
			for _, x := range c {
				if fok && x == fv {
					want = fv
				}
			}
			eq(fmt.Sprint("InFloat64", c), want, k.InFloat64(99.5, c))
		}
		for _, r := range [][2]float64{{0, 0}, {-1, 1}, {7, 7}, {9, 1}, {math.Inf(-1), math.Inf(1)}, {fv, fv}} {
			want := 99.5
			if fok && fv >= r[0] && fv <= r[1] {
				want = fv
			}
			eq(fmt.Sprint("RangeFloat64", r), want, k.RangeFloat64(99.5, r[0], r[1]))
		}

		// durations and times (package time is the trusted parser)
		dv, derr := time.ParseDuration(text)
		gd, err := k.Duration()
		isErr("Duration", derr != nil, err)
		if derr == nil {
			eq("Duration", dv, gd)
		}
		must("MustDuration", derr == nil, false, dv, time.Duration(0), func(x bool) interface{} {
			if !x {
				return k.MustDuration()
			}
			return k.MustDuration(-90*time.Second, 1)
		}, -90*time.Second, "-1m30s")
		set()
		for fi, format := range []string{time.RFC3339, time.RFC1123Z, "2006-01-02", time.Kitchen} {
			if fi > 0 && text != "" && len(text) < 5 {
				break
			}
			tv, terr := time.Parse(format, text)
			check := func(q string, got time.Time, want time.Time) { // instant and offset
				_, o1 := got.Zone()
				_, o2 := want.Zone()
				if !got.Equal(want) || o1 != o2 {
					eq(q+" "+format, want.String(), got.String())
				}
			}
			set()
			gt, err := k.TimeFormat(format)
			isErr("TimeFormat "+format, terr != nil, err)
			if terr == nil {
				check("TimeFormat", gt, tv)
			}
			must("MustTimeFormat "+format, terr == nil, false, tv.String(), time.Time{}.String(), func(x bool) interface{} {
				if !x {
					return k.MustTimeFormat(format).String()
				}
				return k.MustTimeFormat(format, someTimes[1], someTimes[0]).String()
			}, someTimes[1].String(), someTimes[1].Format(format))
			set()
			if fi == 0 {
				gt, err := k.Time()
				isErr("Time", terr != nil, err)
				if terr == nil {
					check("Time", gt, tv)
				}
				must("MustTime", terr == nil, false, tv.String(), time.Time{}.String(), func(x bool) interface{} {
					if !x {
						return k.MustTime().String()
					}
					return k.MustTime(someTimes[2], someTimes[0]).String()
				}, someTimes[2].String(), someTimes[2].Format(format))
				set()
			}
			def := someTimes[1].Add(time.Hour)
			for n := 0; n <= len(someTimes); n++ {
				c := someTimes[:n]
				if n == len(someTimes) {
					c = []time.Time{tv.UTC()}
				}
				want := def
				for _, x := range c {
					if terr == nil && x.Equal(tv) {
						want = tv
					}
				}
				check(fmt.Sprint("InTimeFormat", n), k.InTimeFormat(format, def, c), want)
				if fi == 0 {
					check(fmt.Sprint("InTime", n), k.InTime(def, c), want)
				}
			}
			for a := range someTimes {
				for b := range someTimes {
					lo, hi := someTimes[a], someTimes[b]
					if a == 0 {
						lo = tv.UTC()
					}
					if b == 0 {
						hi = tv.UTC()
					}
					want := def
					if terr == nil && !tv.Before(lo) && !tv.After(hi) {
						want = tv
					}
					check(fmt.Sprint("RangeTimeFormat", lo, hi), k.RangeTimeFormat(format, def, lo, hi), want)
					if fi == 0 {
						check(fmt.Sprint("RangeTime", lo, hi), k.RangeTime(def, lo, hi), want)
					}
				}
			}
		}
		stored("reading", raw)
		h.w.Step(60)
		h.w.Trace()
		h.w.B1 = append(h.w.B1[:0], fmt.Sprint(bok, bv, iok, i64, uok, u64, fok, fv, derr == nil, dv)...)
		h.w.State(h.w.B1)
	})
	return fl
}

func cased(word string) []string {
	var out []string
	for m := 0; m < 1<<len(word); m++ {
		b := []byte(word)
		for i := range b {
			if m&(1<<i) != 0 {
				b[i] -= 'a' - 'A'
			}
		}
		out = append(out, string(b))
	}
	return out
}

func init() {
	register(&core.Check{
		ID:    "C15",
		Bound: "every scalar accessor (plain, Must, In, Range) on all words of <=5 (6) of 13 numeric symbols, every letter-case variant and prefix of every boolean word, all integer literals around the bounds of 64 bits in 4 bases, durations of <=3 terms, times over boundary fields; every default, bound and candidate pair out of ~70 boundary numbers per type (durations, floats, times, strings likewise) against every text; texts behind references and mappers",
		Assumptions: []string{
			"strconv.ParseFloat, time.ParseDuration and time.Parse are trusted as the meaning of float, duration and time texts; integers and booleans are decoded independently",
			"without a default, an integer or float text beyond the range may give zero or the nearest number",
		},
		Spaces: func(tier string) []core.Space {
			list := func(name, note string, mapper bool, vals []string) core.Space {
				return core.Space{Name: name, N: uint64(len(vals)), Note: note, New: func(w *core.W) func(uint64) *core.Fail {
					h := newScalarHarness(w, mapper)
					return func(i uint64) *core.Fail { return h.check(vals[i]) }
				}}
			}
			wordSpace := func(name string, menu []string, l int) core.Space {
				t := words("", menu, l)
				return core.Space{Name: name, N: t.n, Note: fmt.Sprintf("all words of <=%d of %d symbols", l, len(menu)), New: func(w *core.W) func(uint64) *core.Fail {
					h := newScalarHarness(w, false)
					var g genScratch
					return func(i uint64) *core.Fail { return h.check(string(t.gen(&g, i))) }
				}}
			}
			var bools []string
			for _, wd := range []string{"true", "false", "yes", "no", "on", "off", "t", "f", "y", "n", "1", "0", "enabled"} {
				if wd == "1" || wd == "0" {
					bools = append(bools, wd, wd+wd, " "+wd, wd+".0")
					continue
				}
				for n := 1; n <= len(wd); n++ {
					bools = append(bools, cased(wd[:n])...)
				}
				bools = append(bools, wd+" ", " "+wd, wd+"s")
			}
			var ints []string
			for _, c := range []string{"0", "1", "127", "128", "255", "256", "32767", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999"} {
				v, _ := new(big.Int).SetString(c, 10)
				for d := int64(-1); d <= 1; d++ {
					x := new(big.Int).Add(v, big.NewInt(d))
					if x.Sign() < 0 {
						continue
					}
					for _, sign := range []string{"", "-", "+"} {
						for _, f := range []string{x.Text(10), "0x" + x.Text(16), "0X" + strings.ToUpper(x.Text(16)), "0" + x.Text(8), "0o" + x.Text(8), "0b" + x.Text(2), x.Text(10) + "_0", x.Text(10) + ".0", "00" + x.Text(10), x.Text(10) + "e3"} {
							ints = append(ints, sign+f)
						}
					}
				}
			}
			floats := []string{}
			for _, m := range []string{"0", "1", "1.5", ".5", "5.", "0.1", "1.7976931348623157", "4.9", "9007199254740993", "123456789.123456789", "0x1.8", "inf", "Inf", "infinity", "nan", "NaN", "1_000.5", "-0", "1.7976931348623159"} {
				for _, e := range []string{"", "e0", "e308", "e309", "e-324", "e-400", "E+2", "p-2", "e", "f"} {
					for _, s := range []string{"", "-", "+"} {
						floats = append(floats, s+m+e)
					}
				}
			}
			var durs []string
			nums := []string{"0", "1", "-1", "+90", "1.5", ".5", "1.", "9223372036854775807", "9223372036854775808", "2562047", "x"}
			units := []string{"", "ns", "us", "µs", "ms", "s", "m", "h", "d", "S"}
			for _, a := range nums {
				for _, u := range units {
					durs = append(durs, a+u)
					for _, b := range []string{"0", "30", "1.5", "-2", "47"} {
						for _, u2 := range []string{"ns", "s", "m", "h", ""} {
							durs = append(durs, a+u+b+u2)
						}
					}
				}
			}
			var times []string
			for _, y := range []string{"0001", "1999", "2000", "2001", "9999", "10000", "20"} {
				for _, md := range []string{"-01-01", "-02-29", "-12-31", "-13-01", "-1-1", "-04-31"} {
					for _, hms := range []string{"T00:00:00", "T23:59:59", "T23:59:60", "T24:00:00", "T12:30:15.5", "T12:30:15,25", " 12:30:15", "T23:00:00", ""} {
						for _, z := range []string{"Z", "+00:00", "-05:00", "+14:30", "+0100", "z", ""} {
							times = append(times, y+md+hms+z)
						}
					}
				}
			}
			times = append(times, "3:04PM", "11:59pm", "13:00PM", "Mon, 02 Jan 2006 15:04:05 -0700", "Tue, 29 Feb 2000 23:59:59 +0000", "Mon, 30 Feb 2006 15:04:05 -0700")
			refs := []string{"%(n)s", "$", "$$", "-%(n)s", "%(n)s%(n)s", "$%(n)s.5", "0x%(n)s", "%(n)sm", "%(n)sms$s", "%(zz)s", "$999-12-31T23:00:00-05:00", "", "t$", "$_000"}
			num := []string{"0", "1", "7", "9", "x", "a", "_", "-", "+", ".", "e", "s", " "}
			return append([]core.Space{
				list("booleans", "every prefix and letter-case variant of the boolean words", false, bools),
				list("integers", "literals around the machine bounds in four bases with signs and decorations", false, ints),
				list("floats", "mantissas x exponents x signs", false, floats),
				list("durations", "one and two terms", false, durs),
				list("times", "boundary fields, 4 formats", false, times),
				list("references", "texts behind references and a value mapper", true, refs),
				list("numbers", "a range of small numbers, all powers of two and ten and their neighbours", false, numberTexts),
				wordSpace("numeric-words", num, tier2(tier, 5, 6)),
				wordSpace("letters", []string{"t", "r", "u", "e", "o", "n", "f", "y", "s", "T", "O", "N"}, tier2(tier, 4, 5)),
			}, defaultSpaces(tier)...)
		},
	})
}
