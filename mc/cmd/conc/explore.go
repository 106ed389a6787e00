package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/go-ini/ini"
	"github.com/go-ini/ini/vsync"

	"inimc/core"
	"inimc/ref"
)

// env is what the threads of one program share.
type env struct {
	f *ini.File
	// handles taken before the threads start
	a, ab, b *ini.Section
	k        *ini.Key
}

// cop is one operation; it emits its results (strings, bools, handles, lists of handles, errors).
type cop struct {
	name string
	f    func(e *env, out *outcome)
}

type outcome struct {
	vals  []interface{}
	call  int
	ret   int
	panic string
}

func (o *outcome) put(v ...interface{}) { o.vals = append(o.vals, v...) }

// program: operations per thread, from a document under an option set.
type program struct {
	set     int
	doc     int
	threads [][]*cop
}

func (p *program) String() string {
	var t []string
	for i, th := range p.threads {
		var n []string
		for _, o := range th {
			n = append(n, o.name)
		}
		t = append(t, fmt.Sprintf("T%d{%s}", i, strings.Join(n, "; ")))
	}
	return fmt.Sprintf("%s %q: %s", sets[p.set].name, docs[p.doc], strings.Join(t, " || "))
}

type explorer struct {
	dir       string
	schedules uint64
	trans     uint64
	states    map[uint64]struct{}
	prog      *program
	trace     []int
	races     int
	buf       []byte
}

func newExplorer(dir string) *explorer {
	ref.DefaultFormat.Apply()
	return &explorer{dir: dir, states: map[uint64]struct{}{}}
}

func (x *explorer) describe() string {
	if x.prog == nil {
		return "(no program)"
	}
	return fmt.Sprintf("%s, schedule of lock acquisitions %v", x.prog, x.trace)
}

func (x *explorer) setup(p *program) *env {
	f, err := ini.LoadSources(sets[p.set].o, []byte(docs[p.doc]))
	if err != nil {
		panic(err)
	}
	e := &env{f: f}
	e.a, _ = f.GetSection("a")
	e.ab, _ = f.GetSection("a.b")
	e.b, _ = f.GetSection("b")
	e.k, _ = e.a.GetKey("k")
	return e
}

// run executes the program with the choices given (then always the first enabled
// thread), and returns what each operation answered, the enabled threads at every
// choice and a failure of the execution itself.
func (x *explorer) run(threads [][]*cop, p *program, prefix []int) (outs [][]outcome, e *env, alts [][]int, bad string) {
	e = x.setup(p)
	outs = make([][]outcome, len(threads))
	for t := range threads {
		outs[t] = make([]outcome, len(threads[t]))
	}
	vsync.Start()
	for t := range threads {
		go body(t, threads[t], outs[t], e)
	}
	for t := range threads {
		vsync.Run(t) // up to the first acquisition
	}
	x.trace = x.trace[:0]
	for {
		var en []int
		left := 0
		for t := range threads {
			if !vsync.Done(t) {
				left++
				if vsync.Enabled(t) != 0 {
					en = append(en, t)
				}
			}
		}
		if left == 0 {
			break
		}
		if len(en) == 0 {
			for t := range threads {
				if !vsync.Done(t) {
					vsync.Abort(t)
				}
			}
			bad = fmt.Sprintf("deadlock: %d operations wait for a lock that nobody will release", left)
			break
		}
		c := en[0]
		if n := len(x.trace); n < len(prefix) {
			c = prefix[n]
		}
		alts = append(alts, en)
		x.trace = append(x.trace, c)
		vsync.Take(c)
		x.trans++
	}
	if s := vsync.Stop(); bad == "" {
		bad = s
	}
	x.schedules++
	progress.Add(1)
	return
}

func body(me int, ops []*cop, outs []outcome, e *env) {
	vsync.Enter(me)
	defer vsync.Exit(me)
	for i, o := range ops {
		outs[i].call = vsync.Step()
		one(o, e, &outs[i])
		outs[i].ret = vsync.Step()
	}
}

func one(o *cop, e *env, out *outcome) {
	defer func() {
		if r := recover(); r != nil {
			out.panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	o.f(e, out)
}

// canon renders results and final content: handles by their final position, or by
// first appearance when they are not in the file any more.
func (x *explorer) canon(threads [][]*cop, outs [][]outcome, e *env) (s string, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic while looking at the final content: %v", r)
		}
	}()
	b := x.buf[:0]
	pos := map[interface{}]string{}
	for i, sec := range e.f.Sections() {
		if sec == nil {
			return "", "Sections() lists a nil section"
		}
		pos[sec] = "s" + strconv.Itoa(i)
		for j, k := range sec.Keys() {
			if k == nil {
				return "", "Keys() lists a nil key"
			}
			pos[k] = "k" + strconv.Itoa(i) + "." + strconv.Itoa(j)
		}
	}
	gone := 0
	id := func(h interface{}) string {
		p, ok := pos[h]
		if !ok {
			gone++
			p = "gone" + strconv.Itoa(gone)
			pos[h] = p
		}
		return p
	}
	for _, h := range []*ini.Section{e.a, e.ab, e.b} {
		if h != nil {
			b = append(append(b, id(h)...), ' ')
		}
	}
	for t := range threads {
		for i := range threads[t] {
			o := &outs[t][i]
			if o.panic != "" {
				return "", threads[t][i].name + " panics: " + o.panic
			}
			b = append(b, '|')
			for _, v := range o.vals {
				switch v := v.(type) {
				case *ini.Section:
					if v == nil {
						b = append(b, "nil "...)
						continue
					}
					b = append(append(append(append(b, id(v)...), '='), v.Name()...), ' ')
				case *ini.Key:
					if v == nil {
						b = append(b, "nil "...)
						continue
					}
					b = append(append(append(append(b, id(v)...), '='), v.Name()...), ' ')
				case []*ini.Section:
					b = append(b, '[')
					for _, s := range v {
						b = append(append(b, id(s)...), ' ')
					}
					b = append(b, ']')
				case []*ini.Key:
					b = append(b, '[')
					for _, s := range v {
						b = append(append(b, id(s)...), ' ')
					}
					b = append(b, ']')
				case map[string]string:
					for _, k := range core.SortedKeys(v) {
						b = append(b, fmt.Sprintf("%q:%q,", k, v[k])...)
					}
				case error:
					b = append(b, "error "...)
				case nil:
					b = append(b, "ok "...)
				default:
					b = append(b, fmt.Sprint(v)...)
					b = append(b, ' ')
				}
			}
		}
	}
	b = append(b, "\nFINAL "...)
	b = ref.Observe(b, e.f)
	b = append(b, ref.Written(e.f, "")...)
	for _, h := range []*ini.Section{e.a, e.ab, e.b} { // also those deleted meanwhile
		if h != nil {
			b = ref.ObserveSec(b, h)
		}
	}
	x.buf = b
	return string(b), ""
}

// orders lists the sequential orders of the operations that respect each thread's own.
func orders(threads [][]*cop) (out [][]int) {
	var n []int
	total := 0
	for _, t := range threads {
		n = append(n, len(t))
		total += len(t)
	}
	var rec func(pre []int)
	rec = func(pre []int) {
		if len(pre) == total {
			out = append(out, append([]int(nil), pre...))
			return
		}
		for t := range n {
			if n[t] > 0 {
				n[t]--
				rec(append(pre, t))
				n[t]++
			}
		}
	}
	rec(nil)
	return
}

// sequential runs the operations one after another in the given order (as a
// single controlled thread) and renders results per thread.
func (x *explorer) sequential(p *program, order []int) (string, string) {
	var flat []*cop
	idx := make([]int, len(p.threads))
	for _, t := range order {
		flat = append(flat, p.threads[t][idx[t]])
		idx[t]++
	}
	outs, e, _, bad := x.run([][]*cop{flat}, p, nil)
	if bad != "" {
		return "", bad
	}
	per := make([][]outcome, len(p.threads))
	for i, t := range order {
		per[t] = append(per[t], outs[0][i])
	}
	return x.canon(p.threads, per, e)
}

// consistent: the order puts an operation that had returned before another one was called first.
func consistent(order []int, outs [][]outcome) bool {
	var seq []*outcome
	idx := make([]int, len(outs))
	for _, t := range order {
		seq = append(seq, &outs[t][idx[t]])
		idx[t]++
	}
	for i := range seq {
		for j := i + 1; j < len(seq); j++ {
			if seq[j].ret < seq[i].call {
				return false
			}
		}
	}
	return true
}

func (x *explorer) raceText() string {
	m, _ := filepath.Glob(filepath.Join(x.dir, "race*"))
	for _, n := range m {
		if b, err := os.ReadFile(n); err == nil {
			if len(b) > 3000 {
				b = b[:3000]
			}
			return string(b)
		}
	}
	return ""
}

// explore runs the program under every schedule and compares with its sequential orders.
func (x *explorer) explore(p *program) *core.Fail {
	x.prog = p
	x.trace = x.trace[:0]
	fail := func(want, got string) *core.Fail {
		return &core.Fail{Key: p.String(), Input: x.describe(), Want: want, Got: got}
	}
	ords := orders(p.threads)
	seq := make([]string, len(ords))
	for i, o := range ords {
		s, bad := x.sequential(p, o)
		if bad != "" {
			return fail("operations that return and leave the file unlocked when run one after another in order "+fmt.Sprint(o), bad)
		}
		seq[i] = s
		x.states[hash([]byte(s))] = struct{}{}
	}
	var prefix []int
	for {
		outs, e, alts, bad := x.run(p.threads, p, prefix)
		if bad != "" {
			return fail("every operation returns and leaves the file unlocked", bad)
		}
		if n := vsync.Races(); n != x.races {
			x.races = n
			return fail("no data race", x.raceText())
		}
		got, bad := x.canon(p.threads, outs, e)
		if bad != "" {
			return fail("results of some sequential order", bad)
		}
		ok := false
		for i := range ords {
			if seq[i] == got && consistent(ords[i], outs) {
				ok = true
				break
			}
		}
		if !ok {
			w := "one of the sequential outcomes:"
			for i := range ords {
				w += fmt.Sprintf("\norder %v: %q", ords[i], seq[i])
			}
			return fail(w, fmt.Sprintf("%q", got))
		}
		x.states[hash([]byte(got))] = struct{}{}
		// next schedule: advance the last choice that has a later alternative
		n := len(x.trace)
		var next []int
		for n > 0 && next == nil {
			n--
			for i, c := range alts[n] {
				if c == x.trace[n] && i+1 < len(alts[n]) {
					next = append(append([]int(nil), x.trace[:n]...), alts[n][i+1])
				}
			}
		}
		if next == nil {
			return nil
		}
		prefix = next
	}
}
