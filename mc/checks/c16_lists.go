package checks

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

func listEq(a, b interface{}) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }

// checkLists compares all typed list accessors of a key against element-wise
// conversion of the given elements.
func checkLists(w *core.W, k *ini.Key, elems []string, delim string, in func() string) *core.Fail {
	var fl *core.Fail
	cmp := func(q string, want, got interface{}) {
		if fl == nil && !listEq(want, got) {
			fl = &core.Fail{Key: in() + q, Input: in() + " " + q, Want: fmt.Sprintf("%#v", want), Got: fmt.Sprintf("%#v", got)}
		}
	}
	strict := func(q string, bad string, hasBad bool, n int, err error) {
		if fl != nil {
			return
		}
		if hasBad != (err != nil) || (err != nil && (n != 0 || !strings.Contains(err.Error(), strings.Trim(strconv.Quote(bad), `"`)))) {
			fl = &core.Fail{Key: in() + q, Input: in() + " " + q, Want: fmt.Sprintf("error naming %q: %v, and no values", bad, hasBad), Got: fmt.Sprintf("%v, %d values", err, n)}
		}
	}
	firstBad := func(ok func(string) bool) (string, bool) {
		for _, e := range elems {
			if !ok(e) {
				return e, true
			}
		}
		return "", false
	}
	core.Guard(in, func() {
		cmp("Strings", elems, k.Strings(delim))

		// integers: nearest number beyond the range, zero otherwise
		ip, iv := []int64{}, []int64{}
		okInt := func(e string) bool { v, ok := refInt(e, true); return ok && v.IsInt64() }
		for _, e := range elems {
			n, _ := strconv.ParseInt(e, 0, 64)
			if v, ok := refInt(e, true); ok && v.IsInt64() {
				n = v.Int64()
				iv = append(iv, n)
			}
			ip = append(ip, n)
		}
		toInt := func(l []int64) []int {
			o := []int{}
			for _, x := range l {
				o = append(o, int(x))
			}
			return o
		}
		cmp("Int64s", ip, k.Int64s(delim))
		cmp("ValidInt64s", iv, k.ValidInt64s(delim))
		cmp("Ints", toInt(ip), k.Ints(delim))
		cmp("ValidInts", toInt(iv), k.ValidInts(delim))
		bad, has := firstBad(okInt)
		l64, err := k.StrictInt64s(delim)
		strict("StrictInt64s", bad, has, len(l64), err)
		li, err2 := k.StrictInts(delim)
		strict("StrictInts", bad, has, len(li), err2)
		if !has {
			cmp("StrictInt64s", iv, l64)
			cmp("StrictInts", toInt(iv), li)
		}

		up, uv := []uint64{}, []uint64{}
		okUint := func(e string) bool { v, ok := refInt(e, false); return ok && v.IsUint64() }
		for _, e := range elems {
			n, _ := strconv.ParseUint(e, 0, 64)
			if v, ok := refInt(e, false); ok && v.IsUint64() {
				n = v.Uint64()
				uv = append(uv, n)
			}
			up = append(up, n)
		}
		toUint := func(l []uint64) []uint {
			o := []uint{}
			for _, x := range l {
				o = append(o, uint(x))
			}
			return o
		}
		cmp("Uint64s", up, k.Uint64s(delim))
		cmp("ValidUint64s", uv, k.ValidUint64s(delim))
		cmp("Uints", toUint(up), k.Uints(delim))
		cmp("ValidUints", toUint(uv), k.ValidUints(delim))
		bad, has = firstBad(okUint)
		lu64, err := k.StrictUint64s(delim)
		strict("StrictUint64s", bad, has, len(lu64), err)
		lu, err2 := k.StrictUints(delim)
		strict("StrictUints", bad, has, len(lu), err2)
		if !has {
			cmp("StrictUint64s", uv, lu64)
			cmp("StrictUints", toUint(uv), lu)
		}

		fp, fv := []float64{}, []float64{}
		okFloat := func(e string) bool { _, err := strconv.ParseFloat(e, 64); return err == nil }
		for _, e := range elems {
			n, err := strconv.ParseFloat(e, 64)
			fp = append(fp, n)
			if err == nil {
				fv = append(fv, n)
			}
		}
		cmp("Float64s", fp, k.Float64s(delim))
		cmp("ValidFloat64s", fv, k.ValidFloat64s(delim))
		bad, has = firstBad(okFloat)
		lf, err := k.StrictFloat64s(delim)
		strict("StrictFloat64s", bad, has, len(lf), err)
		if !has {
			cmp("StrictFloat64s", fv, lf)
		}

		bp, bv := []bool{}, []bool{}
		okBool := func(e string) bool { _, ok := refBools[e]; return ok }
		for _, e := range elems {
			bp = append(bp, refBools[e])
			if okBool(e) {
				bv = append(bv, refBools[e])
			}
		}
		cmp("Bools", bp, k.Bools(delim))
		cmp("ValidBools", bv, k.ValidBools(delim))
		bad, has = firstBad(okBool)
		lb, err := k.StrictBools(delim)
		strict("StrictBools", bad, has, len(lb), err)
		if !has {
			cmp("StrictBools", bv, lb)
		}

		for _, format := range []string{time.RFC3339, "2006-01-02"} {
			format := format
			tp, tv := []string{}, []string{}
			ts := func(t time.Time) string { return t.Format(time.RFC3339Nano) }
			tss := func(l []time.Time) []string {
				o := []string{}
				for _, x := range l {
					o = append(o, ts(x))
				}
				return o
			}
			okTime := func(e string) bool { _, err := time.Parse(format, e); return err == nil }
			for _, e := range elems {
				t, err := time.Parse(format, e)
				if err == nil {
					tv = append(tv, ts(t))
				} else {
					t = time.Time{}
				}
				tp = append(tp, ts(t))
			}
			cmp("TimesFormat", tp, tss(k.TimesFormat(format, delim)))
			cmp("ValidTimesFormat", tv, tss(k.ValidTimesFormat(format, delim)))
			bad, has = firstBad(okTime)
			lt, err := k.StrictTimesFormat(format, delim)
			strict("StrictTimesFormat", bad, has, len(lt), err)
			if !has {
				cmp("StrictTimesFormat", tv, tss(lt))
			}
			if format == time.RFC3339 {
				cmp("Times", tp, tss(k.Times(delim)))
				cmp("ValidTimes", tv, tss(k.ValidTimes(delim)))
				lt, err := k.StrictTimes(delim)
				strict("StrictTimes", bad, has, len(lt), err)
				if !has {
					cmp("StrictTimes", tv, tss(lt))
				}
			}
		}
		w.Step(30)
		w.Trace()
	})
	return fl
}

func init() {
	_ = math.MaxInt64
	delims := []string{",", ";", "::", "é", "ab", " ", "aa", "世界", "\xff", ",a", "%"}
	register(&core.Check{
		ID:    "C16",
		Bound: "Strings: all texts of <=7 (8) symbols x 11 delimiters (one and several characters, multi-byte, self-overlapping, blank); typed lists: all lists of <=4 (5) of 18 element texts x 3 delimiters x all 27 list accessors; with shadows, references; texts of 5 (6) white-space symbols; 0..70 (300) elements",
		Assumptions: []string{
			"a final delimiter adds no element; a delimiter starting with a backslash is outside the domain",
			"strconv and time are trusted for float and time elements; StringsWithShadows does not interpret escapes (documented plain split)",
		},
		Spaces: func(tier string) []core.Space {
			split := func(name string, menu []string, l int) core.Space {
				t := words("", menu, l)
				nd := uint64(len(delims))
				return core.Space{Name: name, N: t.n * nd, Note: fmt.Sprintf("all texts of <=%d of %d symbols x %d delimiters", l, len(menu), nd), New: func(w *core.W) func(uint64) *core.Fail {
					f := ini.Empty()
					k, _ := f.Section("s").NewKey("k", "")
					var g genScratch
					return func(i uint64) *core.Fail {
						text := string(t.gen(&g, i/nd))
						d := delims[i%nd]
						in := func() string { return fmt.Sprintf("Strings(%q) of %q", d, text) }
						var fl *core.Fail
						core.Guard(in, func() {
							k.SetValue(text)
							want, got := ref.Split(text, d), k.Strings(d)
							w.Step(1)
							w.Trace()
							w.B1 = append(w.B1[:0], strings.Join(want, "\x01")...)
							w.State(w.B1)
							if !listEq(want, got) {
								fl = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%q", got)}
							}
						})
						return fl
					}
				}}
			}
			els := []string{"1", "-2", "0x10", "010", "x", "", "1.5", "9223372036854775808", "-99999999999999999999", "18446744073709551616", "true", "No", "2000-02-29T00:00:00Z", "1999-12-31", "1e999", "nan", " 3 ", "a b"}
			ldelims := []string{",", "::", "é"}
			n := tier2(tier, 4, 5)
			nw := core.WordsUpTo(len(els), n)
			typed := core.Space{Name: "typed-lists", N: nw * uint64(len(ldelims)), Note: fmt.Sprintf("all lists of <=%d of %d elements x %d delimiters x all list accessors", n, len(els), len(ldelims)),
				New: func(w *core.W) func(uint64) *core.Fail {
					f := ini.Empty()
					k, _ := f.Section("s").NewKey("k", "")
					var word []int
					return func(i uint64) *core.Fail {
						d := ldelims[i%uint64(len(ldelims))]
						word = core.Word(len(els), i/uint64(len(ldelims)), word)
						var raw []string
						elems := []string{}
						for _, e := range word {
							raw = append(raw, els[e])
							elems = append(elems, strings.TrimSpace(els[e]))
						}
						text := strings.Join(raw, d)
						if len(raw) > 0 && raw[len(raw)-1] == "" { // no element after a final delimiter
							elems = elems[:len(elems)-1]
						}
						k.SetValue(text)
						w.B1 = append(w.B1[:0], text...)
						w.State(w.B1)
						return checkLists(w, k, elems, d, func() string { return fmt.Sprintf("lists of %q by %q", text, d) })
					}
				}}
			// shadows and references
			vals := []string{"1", "2,3", "a , b", "%(n)s", "%(n)s,x", "", ",", "5,,6"}
			radix := []int{len(vals), len(vals) + 1, len(vals) + 1}
			shadows := core.Space{Name: "shadows", N: core.Prod(radix), Note: "key and up to two shadows, references inside",
				New: func(w *core.W) func(uint64) *core.Fail {
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, radix, m)
						f := ini.Empty(ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: true})
						_, _ = f.Section("").NewKey("n", "7,8")
						k, _ := f.Section("s").NewKey("k", vals[m[0]])
						list := []string{vals[m[0]]}
						for _, j := range m[1:] {
							if j > 0 {
								_ = k.AddShadow(vals[j-1])
								list = append(list, vals[j-1])
							}
						}
						in := func() string { return fmt.Sprintf("StringsWithShadows(\",\") of %q", list) }
						want := []string{}
						for _, v := range list {
							if v == "" {
								continue
							}
							for _, e := range strings.Split(v, ",") {
								want = append(want, strings.ReplaceAll(strings.TrimSpace(e), "%(n)s", "7,8"))
							}
						}
						var got []string
						core.Guard(in, func() { got = k.StringsWithShadows(",") })
						w.Step(1)
						w.Trace()
						if !listEq(want, got) {
							return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%q", got)}
						}
						// the plain form reads the key's own value with references
						return checkLists(w, k, ref.Split(strings.ReplaceAll(vals[m[0]], "%(n)s", "7,8"), ","), ",", in)
					}
				}}
			// long lists and many shadows
			lels := []string{"1", "x", "", "-7", "2000-02-29T00:00:00Z"}
			most := tier2(tier, 70, 300)
			lradix := []int{len(lels), len(lels), most + 1, len(ldelims), 4}
			long := core.Space{Name: "long-lists", N: core.Prod(lradix), Note: fmt.Sprintf("lists of 0..%d elements alternating between two texts, alone, as one value with shadows, or spread over shadows", most),
				New: func(w *core.W) func(uint64) *core.Fail {
					var m []int
					return func(i uint64) *core.Fail {
						m = core.Mixed(i, lradix, m)
						d := ldelims[m[3]]
						elems := []string{}
						for j := 0; j < m[2]; j++ {
							elems = append(elems, lels[m[j%2]])
						}
						text := strings.Join(elems, d)
						f := ini.Empty(ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: true})
						in := func() string {
							return fmt.Sprintf("list of %d x (%q, %q) by %q, shadow mode %d", m[2], lels[m[0]], lels[m[1]], d, m[4])
						}
						w.B1 = append(w.B1[:0], text...)
						w.State(w.B1)
						if m[4] == 0 {
							if n := len(elems); n > 0 && elems[n-1] == "" {
								elems = elems[:n-1]
							}
							k, _ := f.Section("s").NewKey("k", text)
							return checkLists(w, k, elems, d, in)
						}
						var list []string
						switch m[4] {
						case 1:
							list = []string{text, "a" + d + "b"}
						case 2:
							list = []string{"a" + d + "b", text, text}
						case 3:
							list = append([]string{"a"}, elems...)
						}
						k, _ := f.Section("s").NewKey("k", list[0])
						want := []string{}
						for j, v := range list {
							if j > 0 {
								_ = k.AddShadow(v)
							}
							if v != "" {
								want = append(want, strings.Split(v, d)...)
							}
						}
						var got []string
						core.Guard(in, func() { got = k.StringsWithShadows(d) })
						w.Step(1)
						w.Trace()
						if !listEq(want, got) {
							return &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", want), Got: fmt.Sprintf("%q", got)}
						}
						return nil
					}
				}}
			return []core.Space{
				successiveSplits(tier2(tier, 3, 4)),
				long,
				split("split", []string{"a", "b", ",", "\\", " ", ":", "é", ";"}, tier2(tier, 7, 8)),
				split("split-spaces", []string{"a", ",", ";", " ", "\t", "\v", "\f", "\n", "\u0085", "\u00a0", "\u2028", "\u3000", "\x00", "\\"}, tier2(tier, 5, 6)),
				split("split-overlap", []string{"a", "\\", "\xff", "世界", "%", "\t"}, tier2(tier, 7, 9)),
				typed, numberLists(), shadows,
			}
		},
	})
}
