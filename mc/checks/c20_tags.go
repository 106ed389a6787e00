package checks

import (
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

// tagText is one ini tag.
func tagTexts(most int) []string {
	opts := []string{"omitempty", "allowshadow", "nonunique", "extends", "", "Omitempty", " extends", "unknown"}
	var out []string
	n := core.WordsUpTo(len(opts), most)
	var word []int
	for _, name := range []string{"", "a", "-", "Sub", "a b"} {
		for i := uint64(0); i < n; i++ {
			word = core.Word(len(opts), i, word)
			parts := []string{name}
			for _, o := range word {
				parts = append(parts, opts[o])
			}
			out = append(out, strings.Join(parts, ","))
		}
	}
	return out
}

type tagSub struct {
	A int `ini:"a"`
	B string
}

// TagSub is embedded.
type TagSub struct {
	A int `ini:"a"`
	B string
}

// tagField is one kind of field carrying a tag.
type tagField struct {
	name string
	t    reflect.Type
	anon bool
}

var tagFields = []tagField{
	{"F", tof(""), false}, {"F", tof(0), false}, {"F", tof(false), false}, {"F", tof(time.Time{}), false}, {"F", tof(new(string)), false}, {"F", tof(new(int)), false},
	{"F", tof([]string{}), false}, {"F", tof([]int{}), false}, {"F", tof(tagSub{}), false}, {"F", tof(&tagSub{}), false}, {"F", tof([]tagSub{}), false}, {"F", tof([]*tagSub{}), false},
	{"TagSub", tof(TagSub{}), true}, {"TagSub", tof(&TagSub{}), true},
}

var tagDocs = []string{
	"",
	"F=1\na=2,3\n-=4\nSub=5\n",
	"F=\na=\nSub=x\n`a b`=7\n",
	"F=1\nF=2\na=3\na=4,5\nB=d\n[F]\na=1\nB=f\n[a]\na=2\nB=aa\n[Sub]\na=3\nB=sub\n[TagSub]\na=4\n[s]\nF=6\na=7\nB=s\n[s.a]\na=8\nB=s.a\n[s.Sub]\na=9\n[s/a]\na=10\nB=s/a\n[s/Sub]\na=11\n[s/]\na=12\n",
	"[F]\na=1\n[F]\na=2\nB=two\n[a]\nB=a1\n[a]\na=5\n[a]\n[-]\na=6\n[s]\nTagSub=1\n[s]\na=2\n[DEFAULT.a]\na=3\n",
}

func taggedTypes(tags []string) []reflect.Type {
	var out []reflect.Type
	for _, tag := range tags {
		for _, f := range tagFields {
			out = append(out, reflect.StructOf([]reflect.StructField{
				{Name: f.name, Type: f.t, Anonymous: f.anon, Tag: reflect.StructTag(fmt.Sprintf(`ini:%q`, tag))},
				{Name: "Last", Type: tof("")},
			}))
		}
	}
	return out
}

// tagMap maps documents to fields with every tag.
func tagMap(most int) core.Space {
	types := taggedTypes(tagTexts(most))
	sets := []optSet{one(), one(oShadow), one(oNonUniq), one(oShadow, oNonUniq), one(oInsens), one(oChild)}
	radix := []int{len(sets), len(tagDocs), 2, 2, 2, len(types)}
	return core.Space{
		Name: "tags", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d field types with tags x %d documents x %d option sets x held values x strict x section", len(types), len(tagDocs), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				o, text, held, strict, sec, t := &sets[m[0]], tagDocs[m[1]], m[2] == 1, m[3] == 1, []string{"", "s"}[m[4]], types[m[5]]
				in := func() string {
					return fmt.Sprintf("map section %q of %q to %s with %s held=%v strict=%v", sec, text, t, o.name, held, strict)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					f, err := ini.LoadSources(o.o, []byte(text))
					d := ref.New(o.o)
					if err != nil || d.Parse(text) != nil || sec != "" && d.First(sec) == nil {
						return
					}
					fl = mapCase(w, f, d, t, sec, held, strict, false)
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

// tagReflect reflects zero and filled fields with every tag.
func tagReflect(most int) core.Space {
	types := taggedTypes(tagTexts(most))
	var bs []before
	for _, o := range [][]opt{nil, {oShadow}, {oNonUniq}, {oShadow, oNonUniq}, {oChild}} {
		for _, t := range tagDocs {
			bs = append(bs, before{optSetName(o), o, t})
		}
	}
	radix := []int{len(bs), 2, 3, len(types)}
	return core.Space{
		Name: "tags", N: core.Prod(radix), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("%d field types with tags x %d files with option sets x default or own section x zero or filled", len(types), len(bs)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var m []int
			return func(i uint64) *core.Fail {
				m = core.Mixed(i, radix, m)
				b, sec, fill, t := &bs[m[0]], []string{"", "s"}[m[1]], m[2], types[m[3]]
				in := func() string {
					return fmt.Sprintf("reflect %s (fill %d) into section %q of %q (%s)", t, fill, sec, b.text, b.name)
				}
				var fl *core.Fail
				core.Guard(in, func() {
					v := reflect.New(t)
					if fill > 0 {
						ref.Fill(v.Elem(), fill-1)
					}
					fl = reflectCase(w, b, v, sec, nil, false)
				})
				if fl != nil {
					fl.Key, fl.Input = in(), in()
				}
				return fl
			}
		},
	}
}

func optSetName(o []opt) string { s := one(o...); return s.name }

// mapperNames checks the name mappers on every word of name characters: an
// underscore precedes each ASCII capital but the first byte's.
func mapperNames(most int) core.Space {
	t := words("", []string{"A", "Z", "a", "z", "_", "1", "É", "é", "世", "ß", "@", "["}, most)
	return core.Space{
		Name: "mapper-names", N: t.n, Note: fmt.Sprintf("SnackCase and TitleUnderscore of every word of <=%d of 12 characters", most),
		New: func(w *core.W) func(uint64) *core.Fail {
			var g genScratch
			return func(i uint64) *core.Fail {
				raw := string(t.gen(&g, i))
				var snack, title strings.Builder
				for j, c := range raw {
					if c >= 'A' && c <= 'Z' {
						if j > 0 {
							snack.WriteByte('_')
							title.WriteByte('_')
						}
						snack.WriteRune(c)
						title.WriteRune(c + 'a' - 'A')
						continue
					}
					snack.WriteRune(unicode.ToUpper(c))
					title.WriteRune(c)
				}
				in := func() string { return fmt.Sprintf("name mappers of %q", raw) }
				var fl *core.Fail
				core.Guard(in, func() {
					w.Step(2)
					w.Trace()
					w.B1 = append(append(w.B1[:0], snack.String()...), title.String()...)
					w.State(w.B1)
					if a, b := ini.SnackCase(raw), ini.TitleUnderscore(raw); a != snack.String() || b != title.String() {
						fl = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q, %q", snack.String(), title.String()), Got: fmt.Sprintf("%q, %q", a, b)}
					}
				})
				return fl
			}
		},
	}
}
