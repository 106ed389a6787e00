package main

import (
	"fmt"

	"github.com/go-ini/ini"

	"inimc/core"
)

type namedSet struct {
	name string
	o    ini.LoadOptions
}

var sets = []namedSet{
	{"{}", ini.LoadOptions{}},
	{"{Insensitive}", ini.LoadOptions{Insensitive: true}},
	{"{AllowShadows}", ini.LoadOptions{AllowShadows: true, AllowBooleanKeys: true}},
	{"{AllowNonUniqueSections}", ini.LoadOptions{AllowNonUniqueSections: true}},
}

var docs = []string{
	"[a]\nk=1\n[a.b]\nj=2\n[b]\n",
	"[a]\nk=1\nm=0\n[b]\n[a]\nk=2\n[a.b]\n",
}

func errOf(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func secOp(name string, s func(e *env) *ini.Section, f func(s *ini.Section, o *outcome)) *cop {
	return &cop{name, func(e *env, o *outcome) {
		if h := s(e); h != nil {
			f(h, o)
		}
	}}
}

func secA(e *env) *ini.Section  { return e.a }
func secAB(e *env) *ini.Section { return e.ab }

var ops = []*cop{
	{"NewSection(n)", func(e *env, o *outcome) { s, err := e.f.NewSection("n"); o.put(s, errOf(err)) }},
	{"NewSection(a)", func(e *env, o *outcome) { s, err := e.f.NewSection("a"); o.put(s, errOf(err)) }},
	{"Section(n)", func(e *env, o *outcome) { o.put(e.f.Section("n")) }},
	{"DeleteSection(a)", func(e *env, o *outcome) { e.f.DeleteSection("a") }},
	{"DeleteSectionWithIndex(a,0)", func(e *env, o *outcome) { o.put(errOf(e.f.DeleteSectionWithIndex("a", 0))) }},
	secOp("a.NewKey(n,1)", secA, func(s *ini.Section, o *outcome) { k, err := s.NewKey("n", "1"); o.put(k, errOf(err)) }),
	secOp("a.NewKey(k,2)", secA, func(s *ini.Section, o *outcome) { k, err := s.NewKey("k", "2"); o.put(k, errOf(err)) }),
	secOp("a.Key(n)", secA, func(s *ini.Section, o *outcome) { o.put(s.Key("n")) }),
	secOp("a.b.Key(k)", secAB, func(s *ini.Section, o *outcome) { o.put(s.Key("k")) }),
	secOp("a.DeleteKey(k)", secA, func(s *ini.Section, o *outcome) { s.DeleteKey("k") }),
	secOp("a.KeysHash", secA, func(s *ini.Section, o *outcome) { o.put(s.KeysHash()) }),
	secOp("a.HasValue(2)", secA, func(s *ini.Section, o *outcome) { o.put(s.HasValue("2")) }),
	{"k.SetValue(2)", func(e *env, o *outcome) { e.k.SetValue("2") }},
	{"Sections", func(e *env, o *outcome) { o.put(e.f.Sections()) }},
	secOp("a.Keys", secA, func(s *ini.Section, o *outcome) { o.put(s.Keys()) }),
	// --- the above are the core ---
	secOp("a.NewBooleanKey(n)", secA, func(s *ini.Section, o *outcome) { k, err := s.NewBooleanKey("n"); o.put(k, errOf(err)) }),
	{"NewRawSection(n,body)", func(e *env, o *outcome) { s, err := e.f.NewRawSection("n", "body"); o.put(s, errOf(err)) }},
	{"NewRawSection(n,other)", func(e *env, o *outcome) { s, err := e.f.NewRawSection("n", "other"); o.put(s, errOf(err)) }},
	{"SectionStrings", func(e *env, o *outcome) { o.put(e.f.SectionStrings()) }},
	{"SectionsByName(a)", func(e *env, o *outcome) { l, err := e.f.SectionsByName("a"); o.put(l, errOf(err)) }},
	{"GetSection(n)", func(e *env, o *outcome) { s, err := e.f.GetSection("n"); o.put(s, errOf(err)) }},
	{"HasSection(a)", func(e *env, o *outcome) { o.put(e.f.HasSection("a")) }},
	{"SectionWithIndex(n,0)", func(e *env, o *outcome) { o.put(e.f.SectionWithIndex("n", 0)) }},
	{"SectionWithIndex(a,1)", func(e *env, o *outcome) { o.put(e.f.SectionWithIndex("a", 1)) }},
	{"DeleteSectionWithIndex(a,1)", func(e *env, o *outcome) { o.put(errOf(e.f.DeleteSectionWithIndex("a", 1))) }},
	{"DeleteSectionWithIndex(zz,0)", func(e *env, o *outcome) { o.put(errOf(e.f.DeleteSectionWithIndex("zz", 0))) }},
	{"ChildSections(a)", func(e *env, o *outcome) { o.put(e.f.ChildSections("a")) }},
	{"NewSection()", func(e *env, o *outcome) { s, err := e.f.NewSection(""); o.put(s, errOf(err)) }},
	{"SectionsByName(zz)", func(e *env, o *outcome) { l, err := e.f.SectionsByName("zz"); o.put(l, errOf(err)) }},
	secOp("a.GetKey(k)", secA, func(s *ini.Section, o *outcome) { k, err := s.GetKey("k"); o.put(k, errOf(err)) }),
	secOp("a.b.GetKey(n)", secAB, func(s *ini.Section, o *outcome) { k, err := s.GetKey("n"); o.put(k, errOf(err)) }),
	secOp("a.HasKey(n)", secA, func(s *ini.Section, o *outcome) { o.put(s.HasKey("n")) }),
	secOp("a.KeyStrings", secA, func(s *ini.Section, o *outcome) { o.put(s.KeyStrings()) }),
	secOp("a.b.ParentKeys", secAB, func(s *ini.Section, o *outcome) { o.put(s.ParentKeys()) }),
	secOp("a.ChildSections", secA, func(s *ini.Section, o *outcome) { o.put(s.ChildSections()) }),
	secOp("a.NewKey(,1)", secA, func(s *ini.Section, o *outcome) { k, err := s.NewKey("", "1"); o.put(k, errOf(err)) }),
	secOp("a.b.NewKey(j,3)", secAB, func(s *ini.Section, o *outcome) { k, err := s.NewKey("j", "3"); o.put(k, errOf(err)) }),
	secOp("a.DeleteKey(zz)", secA, func(s *ini.Section, o *outcome) { s.DeleteKey("zz") }),
	{"DeleteSectionWithIndex(a,-1)", func(e *env, o *outcome) { o.put(errOf(e.f.DeleteSectionWithIndex("a", -1))) }},
	{"DeleteSectionWithIndex(a,9)", func(e *env, o *outcome) { o.put(errOf(e.f.DeleteSectionWithIndex("a", 9))) }},
	{"NewRawSection(,b)", func(e *env, o *outcome) { s, err := e.f.NewRawSection("", "b"); o.put(s, errOf(err)) }},
	{"DeleteSection(zz)", func(e *env, o *outcome) { e.f.DeleteSection("zz") }},
	{"HasSection(zz)", func(e *env, o *outcome) { o.put(e.f.HasSection("zz")) }},
	secOp("a.GetKey(zz)", secA, func(s *ini.Section, o *outcome) { k, err := s.GetKey("zz"); o.put(k, errOf(err)) }),
	secOp("a.NewBooleanKey()", secA, func(s *ini.Section, o *outcome) { k, err := s.NewBooleanKey(""); o.put(k, errOf(err)) }),
	secOp("a.NewKey(n,5)", secA, func(s *ini.Section, o *outcome) { k, err := s.NewKey("n", "5"); o.put(k, errOf(err)) }),
}

var coreOps = ops[:15]

type space struct {
	name, note string
	n          uint64
	program    func(i uint64) *program // nil: symmetric to another one
}

// shape enumerates the programs with the given numbers of operations per thread.
func shape(name string, menus [][]*cop, counts []int, nsets, ndocs int) space {
	var radix []int
	for t, c := range counts {
		for i := 0; i < c; i++ {
			radix = append(radix, len(menus[t]))
		}
	}
	radix = append(radix, nsets, ndocs)
	sym := true
	for _, c := range counts {
		sym = sym && c == counts[0]
	}
	return space{
		name: name, n: core.Prod(radix),
		note: fmt.Sprintf("threads with %v operations, menus of %d, x %d option sets x %d documents, every schedule; symmetric programs once", counts, len(menus[0]), nsets, ndocs),
		program: func(i uint64) *program {
			m := core.Mixed(i, radix, nil)
			if sym { // threads in ascending order
				c := counts[0]
				for t := 0; t+1 < len(counts); t++ {
					for j := 0; j < c; j++ {
						x, y := m[t*c+j], m[(t+1)*c+j]
						if x < y {
							break
						}
						if x > y {
							return nil
						}
					}
				}
			}
			p := &program{set: m[len(m)-2], doc: m[len(m)-1]}
			at := 0
			for t, c := range counts {
				var l []*cop
				for j := 0; j < c; j++ {
					l = append(l, menus[t][m[at]])
					at++
				}
				p.threads = append(p.threads, l)
			}
			if p.doc == 1 && p.set != 3 { // repeated headers are interesting with non-unique sections only
				return nil
			}
			return p
		},
	}
}

func spaces(tier string) []space {
	all2, all3 := [][]*cop{ops, ops}, [][]*cop{ops, ops, ops}
	core2, core3 := [][]*cop{coreOps, coreOps}, [][]*cop{coreOps, coreOps, coreOps}
	n := len(sets)
	if tier == "thorough" {
		return []space{
			shape("1+1", all2, []int{1, 1}, n, 2),
			shape("2+1", all2, []int{2, 1}, n, 2),
			shape("1+1+1", all3, []int{1, 1, 1}, n, 2),
			shape("2+2", all2, []int{2, 2}, 1, 1),
			shape("2+2-core", core2, []int{2, 2}, n, 2),
			shape("2+1+1-core", core3, []int{2, 1, 1}, 1, 1),
			shape("3+1-core", core2, []int{3, 1}, n, 2),
			shape("3+2-core", core2, []int{3, 2}, 1, 1),
		}
	}
	return []space{
		shape("1+1", all2, []int{1, 1}, n, 2),
		shape("2+1", all2, []int{2, 1}, n, 2),
		shape("1+1+1", all3, []int{1, 1, 1}, n, 2),
		shape("2+2-core", core2, []int{2, 2}, n, 2),
	}
}

const bound = "every schedule, at lock acquisitions, of two threads with 1+1 and 2+1 operations out of 46 and 2+2 out of 15 core ones, and of three threads with one of 46 operations each (thorough: 2+2 out of all, 3+1, 3+2 and 2+1+1 out of the core), on 2 documents under 4 option sets"

var assumptions = []string{
	"scheduling points at lock acquisitions suffice because every explored execution is checked for data races by the happens-before detector, with hand-offs between threads invisible to it",
	"package sync is replaced by a model of its documented semantics (a blocked writer blocks new readers) in a build overlay generated from the working tree",
	"the sequential outcomes are those of the library itself (their correctness is decided by C09, C10 and C13)",
	"reading a key handle's value (Value, String) is not among the operations the library makes safe, and is done after all threads have ended",
	"small-scope: more threads and longer histories behave like the enumerated ones",
}
