package checks

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

type histSub struct {
	FooBar string
	X      float64
}

type histTop struct {
	FooBar int
	Name   string `ini:"name,omitempty"`
	List   []int  `ini:",,allowshadow"`
	P      *bool
	D      time.Duration
	Sub    histSub
	SubP   *histSub  `ini:"sub.p"`
	Many   []histSub `ini:"many,,,nonunique"`
}

// structWorld is a file and its model along a history of struct operations.
type structWorld struct {
	f *ini.File
	d *ref.Doc
}

// structOp: fl judges mapping, rfl reflecting; over ends the history as what
// follows is not specified.
type structOp struct {
	name string
	f    func(w *core.W, x *structWorld) (fl, rfl *core.Fail, over bool)
}

func structMap(name string, v interface{}, sec string, held, strict bool) structOp {
	t := reflect.TypeOf(v)
	return structOp{name, func(w *core.W, x *structWorld) (*core.Fail, *core.Fail, bool) {
		if sec != "" && x.d.First(sec) == nil {
			return nil, nil, false
		}
		return mapCase(w, x.f, x.d, t, sec, held, strict, false), nil, false
	}}
}

func structReflect(name string, v interface{}, sec string) structOp {
	return structOp{name, func(w *core.W, x *structWorld) (*core.Fail, *core.Fail, bool) {
		top := x.f.ReflectFrom
		if sec != "" {
			top = x.f.Section(sec).ReflectFrom
		}
		fl, r := reflectStep(w, x.f, x.d, reflect.ValueOf(v), sec, x.f.NameMapper, top)
		return nil, fl, fl != nil || r == nil || r.Free
	}}
}

func structDo(name string, g func(x *structWorld)) structOp {
	return structOp{name, func(w *core.W, x *structWorld) (*core.Fail, *core.Fail, bool) { g(x); return nil, nil, false }}
}

func structPut(sec, key, val string) structOp {
	return structDo(fmt.Sprintf("[%s] %s=%s", sec, key, val), func(x *structWorld) {
		_, _ = x.f.Section(sec).NewKey(key, val)
		_, _ = x.d.Section(sec).NewKey(key, val)
	})
}

func structOps() []structOp {
	yes := true
	full := histTop{FooBar: 3, Name: "n", List: []int{4, 5}, P: &yes, D: time.Second, Sub: histSub{"s", 1.5}, SubP: &histSub{"p", 2}, Many: []histSub{{"m", 1}, {"o", 2}}}
	ops := []structOp{
		structMap("MapTo(top)", histTop{}, "", false, false),
		structMap("StrictMapTo(held top)", histTop{}, "", true, true),
		structMap("Section(Sub).MapTo(sub)", histSub{}, "Sub", true, false),
		structMap("Section(many).MapTo(list)", []histSub{}, "many", true, false),
		structReflect("ReflectFrom(full)", &full, ""),
		structReflect("ReflectFrom(zero)", &histTop{}, ""),
		structReflect("Section(Sub).ReflectFrom(sub)", &histSub{"r", 7}, "Sub"),
		structPut("", "FooBar", "7"), structPut("", "foo_bar", "8"), structPut("", "List", "1,2"), structPut("", "LIST", "3"), structPut("", "P", "x"),
		structPut("Sub", "FooBar", "t"), structPut("Sub", "FOO_BAR", "u"), structPut("sub.p", "X", "2.5"),
		structDo("many: one more", func(x *structWorld) {
			s, _ := x.f.NewSection("many")
			m, _ := x.d.NewSection("many")
			_, _ = s.NewKey("FooBar", "z")
			_, _ = m.NewKey("FooBar", "z")
		}),
		structDo("delete Sub, FooBar", func(x *structWorld) {
			x.f.DeleteSection("Sub")
			x.d.Delete("Sub")
			x.f.Section("").DeleteKey("FooBar")
			x.d.Section("").DeleteKey("FooBar")
		}),
		structDo("NameMapper=SnackCase", func(x *structWorld) { x.f.NameMapper = ini.SnackCase }),
		structDo("NameMapper=TitleUnderscore", func(x *structWorld) { x.f.NameMapper = ini.TitleUnderscore }),
		structDo("NameMapper=nil", func(x *structWorld) { x.f.NameMapper = nil }),
		structDo("ValueMapper", func(x *structWorld) {
			x.f.ValueMapper = func(s string) string { return strings.NewReplacer("7", "70", "t", "T").Replace(s) }
		}),
	}
	return ops
}

// structHistories explores every history of struct operations on one file.
func structHistories(l int, reflecting bool) core.Space {
	ops := structOps()
	k := len(ops)
	sets := []optSet{one(), one(oShadow), one(oNonUniq, oShadow), one(oInsens)}
	docs := []string{"", "FooBar=1\nname=a\nfoo_bar=2\nFOO_BAR=6\n[Sub]\nFooBar=b\nX=0.5\n[sub.p]\nX=3\n[many]\nFooBar=c\n[SUB]\nFOO_BAR=q\n"}
	nb := uint64(len(sets) * len(docs))
	return core.Space{
		Name: "histories", N: nb * core.WordsUpTo(k, l), Setup: ref.DefaultFormat.Apply,
		Note: fmt.Sprintf("all histories of <=%d of %d operations (mapping, reflecting, other mappers, changed content) x %d documents x %d option sets", l, k, len(docs), len(sets)),
		New: func(w *core.W) func(uint64) *core.Fail {
			var word []int
			return func(i uint64) (res *core.Fail) {
				o, doc := &sets[i%uint64(len(sets))], docs[i/uint64(len(sets))%uint64(len(docs))]
				word = core.Word(k, i/nb, word)
				in := func() string {
					var n []string
					for _, p := range word {
						n = append(n, ops[p].name)
					}
					return fmt.Sprintf("%s %q: %s", o.name, doc, strings.Join(n, "; "))
				}
				core.Guard(in, func() {
					x := &structWorld{d: ref.New(o.o)}
					var err error
					if x.f, err = ini.LoadSources(o.o, []byte(doc)); err != nil {
						panic(err)
					}
					if err = x.d.Parse(doc); err != nil {
						panic(err)
					}
					for _, p := range word {
						fl, rfl, over := ops[p].f(w, x)
						if reflecting {
							fl = rfl
						}
						if fl != nil {
							fl.Key, fl.Input = in(), in()
							res = fl
							return
						}
						if over {
							return
						}
					}
				})
				return
			}
		},
	}
}
