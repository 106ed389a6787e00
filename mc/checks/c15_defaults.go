package checks

import (
	"fmt"
	"math"
	"strconv"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
)

// numAPI is the Must, In and Range accessors of one numeric type.
type numAPI[T comparable] struct {
	name  string
	menu  []T
	texts []string
	parse func(string) (T, bool)
	text  func(T) string
	less  func(a, b T) bool
	must  func(*ini.Key, ...T) T
	in    func(*ini.Key, T, []T) T
	rng   func(k *ini.Key, def, lo, hi T) T
}

// space runs every text with every default against every pair of bounds and all
// candidate lists of up to two numbers (three with a repeated one).
func (a *numAPI[T]) space() core.Space {
	texts := a.texts
	for _, m := range a.menu {
		texts = append(texts, a.text(m))
	}
	radix := []int{len(texts), len(a.menu)}
	return core.Space{
		Name: "defaults-" + a.name, N: core.Prod(radix),
		Note: fmt.Sprintf("%d texts x %d defaults x all pairs of them as bounds and as candidates", len(texts), len(a.menu)),
		New: func(w *core.W) func(uint64) *core.Fail {
			f, err := ini.Load([]byte("[s]\n; c\nk=v\nother=o\n"))
			if err != nil {
				panic(err)
			}
			s := f.Section("s")
			k := s.Key("k")
			same := func(x, y T) bool {
				return x == y && fmt.Sprint(x) == fmt.Sprint(y) || x != x && y != y
			}
			return func(i uint64) (fl *core.Fail) {
				m := core.Mixed(i, radix, nil)
				text, def := texts[m[0]], a.menu[m[1]]
				val, ok := a.parse(text)
				in := func() string { return fmt.Sprintf("%s value %q default %v", a.name, text, def) }
				bad := func(q string, want, got interface{}) *core.Fail {
					return &core.Fail{Key: in() + " " + q, Input: in() + " " + q, Want: fmt.Sprint(want), Got: fmt.Sprint(got)}
				}
				core.Guard(in, func() {
					k.SetValue(text)
					want, stored := val, text
					if !ok {
						want, stored = def, a.text(def)
					}
					if got := a.must(k, def); !same(got, want) {
						fl = bad("Must", want, got)
						return
					}
					if k.Value() != stored || s.KeysHash()["k"] != stored {
						fl = bad("Must stored", stored, k.Value()+" "+s.KeysHash()["k"])
						return
					}
					k.SetValue(text)
					w.Step(2)
					for x, lo := range a.menu {
						for y, hi := range a.menu {
							if a.rng != nil {
								want := def
								if ok && val == val && !a.less(val, lo) && !a.less(hi, val) {
									want = val
								}
								if got := a.rng(k, def, lo, hi); !same(got, want) {
									fl = bad(fmt.Sprintf("Range %v %v", lo, hi), want, got)
									return
								}
							}
							if a.in != nil {
								list := []T{lo, hi, lo}[:2+(x+y)%2]
								want := def
								if ok && (val == lo || val == hi) {
									want = val
								}
								if got := a.in(k, def, list); !same(got, want) {
									fl = bad(fmt.Sprint("In ", list), want, got)
									return
								}
							}
						}
					}
					for _, has := range []bool{a.rng != nil, a.in != nil} {
						if has {
							w.Step(len(a.menu) * len(a.menu))
						}
					}
					if k.Value() != text {
						fl = bad("value after reading", text, k.Value())
					}
					w.Trace()
					w.B1 = append(w.B1[:0], fmt.Sprint(a.name, val, ok, def)...)
					w.State(w.B1)
				})
				return fl
			}
		},
	}
}

func defaultSpaces(tier string) []core.Space {
	var ints []int64
	add := func(v int64) {
		for _, x := range ints {
			if x == v {
				return
			}
		}
		ints = append(ints, v)
	}
	for _, v := range []int64{0, 1, 2, 7, 8, 9, 10, 16, 42, 99, 100, 1000} {
		add(v)
		add(-v)
	}
	for _, bits := range []uint{7, 8, 15, 16, 24, 31, 32, 53, 62} {
		for d := int64(-1); d <= 1; d++ {
			add(1<<bits + d)
			add(-(1<<bits + d))
		}
	}
	add(math.MaxInt64)
	add(math.MaxInt64 - 1)
	add(math.MinInt64)
	add(math.MinInt64 + 1)
	var plain []int
	var uints []uint64
	var puints []uint
	for _, v := range ints {
		plain = append(plain, int(v))
		if v >= 0 {
			uints = append(uints, uint64(v))
		}
	}
	uints = append(uints, 1<<63, 1<<63+1, math.MaxUint64-1, math.MaxUint64)
	for _, v := range uints {
		puints = append(puints, uint(v))
	}
	itexts := []string{"", "x", "1.5", "0x2a", "052", "0b101010", "+42", "-0", "1_000", "-0x80", "99999999999999999999", "-99999999999999999999", "18446744073709551616", "9223372036854775808", " 1", "1 "}
	signed := func(s string) (int64, bool) {
		v, ok := refInt(s, true)
		if !ok || !v.IsInt64() {
			return 0, false
		}
		return v.Int64(), true
	}
	unsigned := func(s string) (uint64, bool) {
		v, ok := refInt(s, false)
		if !ok || !v.IsUint64() {
			return 0, false
		}
		return v.Uint64(), true
	}
	floats := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.0 / 3, 0.5, 1.5, 2.5, 100, 1e6, 1e15, 1e16, 123456789.125, 1e20, 1e21, 1.5e22, 1e-5, 1e-7, 1e100,
		16777216, 16777217, 9007199254740991, 9007199254740993, math.MaxFloat32, math.MaxFloat32 * 1.0000001, math.SmallestNonzeroFloat32, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 0.1234567890123, 3.0000000000000004}
	l := []core.Space{
		(&numAPI[int]{"int", plain, itexts, func(s string) (int, bool) { v, ok := signed(s); return int(v), ok }, strconv.Itoa, func(a, b int) bool { return a < b },
			(*ini.Key).MustInt, (*ini.Key).InInt, (*ini.Key).RangeInt}).space(),
		(&numAPI[int64]{"int64", ints, itexts, signed, func(v int64) string { return strconv.FormatInt(v, 10) }, func(a, b int64) bool { return a < b },
			(*ini.Key).MustInt64, (*ini.Key).InInt64, (*ini.Key).RangeInt64}).space(),
		(&numAPI[uint]{"uint", puints, itexts, func(s string) (uint, bool) { v, ok := unsigned(s); return uint(v), ok }, func(v uint) string { return strconv.FormatUint(uint64(v), 10) }, nil,
			(*ini.Key).MustUint, (*ini.Key).InUint, nil}).space(),
		(&numAPI[uint64]{"uint64", uints, itexts, unsigned, func(v uint64) string { return strconv.FormatUint(v, 10) }, nil,
			(*ini.Key).MustUint64, (*ini.Key).InUint64, nil}).space(),
		(&numAPI[float64]{"float64", floats, []string{"", "x", "1e400", "-1e400", "1e-400", "0x1p-2", ".5", "5.", "inf", "nan", "1,5", "1_0"}, func(s string) (float64, bool) { v, err := strconv.ParseFloat(s, 64); return v, err == nil },
			func(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }, func(a, b float64) bool { return a < b },
			(*ini.Key).MustFloat64, (*ini.Key).InFloat64, (*ini.Key).RangeFloat64}).space(),
	}

	var durs []time.Duration
	for _, v := range ints {
		durs = append(durs, time.Duration(v))
	}
	for _, u := range []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour} {
		for _, n := range []time.Duration{1, 10, 59, 60, 61, 999, 1000, 1001, 1500} {
			durs = append(durs, n*u, -n*u, n*u+1, n*u-1)
		}
	}
	l = append(l, (&numAPI[time.Duration]{"duration", durs, []string{"", "x", "1", "0", "1h1m1s1ms1us1ns", "-.5s", "1.5h", "9223372036854775808ns", "1d"},
		func(s string) (time.Duration, bool) { v, err := time.ParseDuration(s); return v, err == nil }, time.Duration.String, nil,
		(*ini.Key).MustDuration, nil, nil}).space())

	strs := []string{"", " ", "a", "A", "true", "0", "a b", "%(x)s", "%", "a;b", "\"q\"", "'q'", "`", "a\nb", "\\", "é", "\xff", "a,b", " a "}
	l = append(l, (&numAPI[string]{"string", strs, nil, func(s string) (string, bool) { return s, len(s) > 0 }, func(s string) string { return s }, nil,
		func(k *ini.Key, d ...string) string { return k.MustString(d[0]) }, nil, nil}).space(),
		(&numAPI[string]{"candidates", strs, nil, func(s string) (string, bool) { return s, true }, func(s string) string { return s }, nil,
			func(k *ini.Key, d ...string) string { return k.String() }, func(k *ini.Key, def string, c []string) string { return k.In(def, c) }, nil}).space())
	l = append(l, timeDefaults())
	return l
}

// timeDefaults runs every default time in every format through MustTime(Format).
func timeDefaults() core.Space {
	var menu []time.Time
	for _, z := range []*time.Location{time.UTC, time.FixedZone("", -5*3600), time.FixedZone("", 14*3600+1800), time.FixedZone("XST", 3600)} {
		for _, ns := range []int{0, 1, 500000000, 999999999} {
			menu = append(menu, time.Date(2000, 2, 29, 23, 59, 59, ns, z), time.Date(1969, 12, 31, 0, 0, 0, ns, z), time.Date(1, 1, 1, 0, 0, 0, ns, z), time.Date(9999, 12, 31, 23, 59, 59, ns, z))
		}
	}
	formats := []string{time.RFC3339, time.RFC3339Nano, time.RFC1123, time.RFC1123Z, time.Kitchen, "2006-01-02", "02/01/06 15:04", time.ANSIC, "", "x"}
	texts := []string{"", "x", "2001-02-03", "2001-02-03T04:05:06Z", "2001-02-03T04:05:06.7+01:00", "4:05AM"}
	radix := []int{len(texts), len(menu), len(formats), len(menu)}
	return core.Space{
		Name: "defaults-time", N: core.Prod(radix), Note: "texts x default times x formats x a bound or candidate",
		New: func(w *core.W) func(uint64) *core.Fail {
			f, err := ini.Load([]byte("[s]\nk=v\n"))
			if err != nil {
				panic(err)
			}
			s := f.Section("s")
			k := s.Key("k")
			return func(i uint64) (fl *core.Fail) {
				m := core.Mixed(i, radix, nil)
				text, def, format, other := texts[m[0]], menu[m[1]], formats[m[2]], menu[m[3]]
				val, perr := time.Parse(format, text)
				in := func() string {
					return fmt.Sprintf("time value %q default %v format %q other %v", text, def, format, other)
				}
				expect := func(q string, want, got time.Time) {
					_, o1 := want.Zone()
					_, o2 := got.Zone()
					if fl == nil && (!want.Equal(got) || o1 != o2) {
						fl = &core.Fail{Key: in() + " " + q, Input: in() + " " + q, Want: want.String(), Got: got.String()}
					}
				}
				core.Guard(in, func() {
					want, stored := val, text
					if perr != nil {
						want, stored = def, def.Format(format)
					}
					check := func(q string, got time.Time) {
						expect(q, want, got)
						if fl == nil && (k.Value() != stored || s.KeysHash()["k"] != stored) {
							fl = &core.Fail{Key: in() + " " + q, Input: in() + " " + q, Want: "stored " + stored, Got: k.Value()}
						}
						k.SetValue(text)
					}
					k.SetValue(text)
					check("MustTimeFormat", k.MustTimeFormat(format, def))
					if format == time.RFC3339 {
						check("MustTime", k.MustTime(def))
					}
					bounded := def
					if perr == nil && !val.Before(other) {
						bounded = val
					}
					hi := time.Date(20000, 1, 1, 0, 0, 0, 0, time.UTC)
					expect("RangeTimeFormat", bounded, k.RangeTimeFormat(format, def, other, hi))
					one := def
					if perr == nil && val.Equal(other) {
						one = val
					}
					expect("InTimeFormat", one, k.InTimeFormat(format, def, []time.Time{other}))
					if format == time.RFC3339 {
						expect("RangeTime", bounded, k.RangeTime(def, other, hi))
						expect("InTime", one, k.InTime(def, []time.Time{other}))
					}
					w.Step(5)
					w.Trace()
				})
				return fl
			}
		},
	}
}
