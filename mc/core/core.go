// Package core is the exhaustive-exploration engine shared by all checks.
//
// A check is a list of Spaces.  A Space is a finite, indexable set of cases;
// every case is one execution (or one batch of executions) of the real library
// compared with an oracle.  The engine visits every index of every space (in
// parallel), counts states and transitions, stops at the first violating
// index, confirms it by repetition, and writes the evidence and replay files.
package core

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Fail describes one violating case.
type Fail struct {
	Key   string // stable identification of the failing input/history (used by known findings)
	Input string // readable input or history
	Want  string
	Got   string
}

// W is the per-worker context handed to a case.
type W struct {
	trans  uint64
	traces uint64
	states map[uint64]struct{}
	capped bool
	seed   maphash.Seed
	sample []string
	B1, B2 []byte // scratch
}

// Step counts n transitions (operations, tokens, environment answers).
func (w *W) Step(n int) { w.trans += uint64(n) }

// Trace counts one complete execution of the implementation compared with the oracle.
func (w *W) Trace() { w.traces++ }

const maxStates = 3 << 20

// State records a distinct canonical state/outcome.
func (w *W) State(b []byte) {
	h := maphash.Bytes(w.seed, b)
	if len(w.states) >= maxStates {
		w.capped = true
		return
	}
	w.states[h] = struct{}{}
}

// Sample keeps a few cases for the evidence file.
func (w *W) Sample(s string) {
	if len(w.sample) < 2 {
		w.sample = append(w.sample, s)
	}
}

// Space is a finite indexable set of cases.
type Space struct {
	Name  string
	N     uint64
	Note  string
	Setup func()
	// Serial forces a single worker (for process-global settings toggled inside cases).
	Serial bool
	// New returns the evaluator for one worker.
	New func(w *W) func(i uint64) *Fail
	// Run, when set, replaces the index loop (explicit-state search); it returns the first failure.
	Run func(w *W, stop func() bool) (*Fail, uint64, bool)
}

// Check is one property's machinery.
type Check struct {
	ID          string
	Level       string
	Assumptions []string
	Bound       string
	Spaces      func(tier string) []Space
}

type spaceStat struct {
	Name     string  `json:"name"`
	Cases    uint64  `json:"cases"`
	Explored uint64  `json:"explored"`
	Full     bool    `json:"exhaustive"`
	Note     string  `json:"note,omitempty"`
	WallS    float64 `json:"wall_s"`
}

// Finding is an entry of the known-findings file.
type Finding struct{ Property, Key, Text string }

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// Root is /verif.
func Root() string { return env("VERIF_ROOT", "/verif") }

// LoadFindings reads KNOWN_FINDINGS.txt lines "finding: property=Cxx key=<quoted> <text>".
func LoadFindings(id string) []Finding {
	data, err := os.ReadFile(filepath.Join(Root(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(q)
		out = append(out, Finding{id, key, strings.TrimSpace(rest[len(q):])})
	}
	return out
}

// Progress is shared with the supervising parent (mmap'd): 4 words per worker.
var Progress []uint64

func mark(worker int, space, idx uint64) {
	if Progress == nil {
		return
	}
	b := worker * 4
	if b+3 >= len(Progress) {
		return
	}
	atomic.StoreUint64(&Progress[b+1], space+1)
	atomic.StoreUint64(&Progress[b+2], idx)
	atomic.AddUint64(&Progress[b], 1)
}

func unmark(worker int) {
	if Progress == nil || worker*4+3 >= len(Progress) {
		return
	}
	atomic.StoreUint64(&Progress[worker*4+1], 0)
	atomic.AddUint64(&Progress[worker*4], 1)
}

// Mark lets Run-style spaces report which of their steps is in flight.
var Mark = func(idx uint64) {}

func guarded(f func(uint64) *Fail, i uint64) (fl *Fail) {
	defer func() {
		if r := recover(); r != nil {
			fl = &Fail{Key: fmt.Sprintf("panic@%d", i), Input: fmt.Sprintf("case %d", i), Want: "no panic",
				Got: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
			if p, ok := r.(*CasePanic); ok {
				fl.Input, fl.Key = p.Input, p.Key
				fl.Got = fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack)
			}
		}
	}()
	return f(i)
}

// CasePanic carries the readable input along with a panic of the library.
type CasePanic struct {
	Input, Key, Stack string
	Val               interface{}
}

// Guard runs f and re-panics with the input attached.
func Guard(input func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*CasePanic); ok {
				panic(p)
			}
			in := input()
			panic(&CasePanic{Input: in, Key: in, Val: r, Stack: trimStack(debug.Stack())})
		}
	}()
	f()
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Result of running a check.
type Result struct {
	Fail  *Fail
	Space string
	Index uint64
	From  uint64 // first case of the history that is needed, Index when the case fails alone
}

// RunSpaceIndex evaluates a single case (replay).
func RunSpaceIndex(c *Check, tier, space string, idx uint64) (*Fail, bool) {
	for _, sp := range c.Spaces(tier) {
		if sp.Name != space {
			continue
		}
		if sp.Setup != nil {
			sp.Setup()
		}
		w := newW()
		if sp.Run != nil {
			fl, _, _ := runGuarded(&sp, w, func() bool { return false })
			return fl, true
		}
		return guarded(sp.New(w), idx), true
	}
	return nil, false
}

// RunSpaceHistory evaluates the cases from..idx one after another in one
// goroutine, as one history, and returns the failure of the last one.
func RunSpaceHistory(c *Check, tier, space string, from, idx uint64) (*Fail, bool) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for _, sp := range c.Spaces(tier) {
		if sp.Name != space || sp.Run != nil {
			continue
		}
		if sp.Setup != nil {
			sp.Setup()
		}
		f := sp.New(newW())
		for i := from; i < idx; i++ {
			_ = guarded(f, i)
		}
		fl := guarded(f, idx)
		if fl != nil && from < idx {
			fl.Input = fmt.Sprintf("%s (directly after the cases %d to %d of the space in the same process)", fl.Input, from, idx-1)
			fl.Got += " (the case holds when it runs first: what went before must not have an influence)"
		}
		return fl, true
	}
	return nil, false
}

// confirmHistory looks for a history of cases up to the failed one after which it
// fails every time; a case that holds alone then shows that the library keeps
// something from one file to the next.
func confirmHistory(c *Check, tier string, r *Result, lo uint64) bool {
	for _, n := range []uint64{1, 4, 32, 256, 4096} {
		from := lo
		if r.Index-lo > n {
			from = r.Index - n
		}
		if from == r.Index {
			return false
		}
		var fl *Fail
		ok := 0
		for ok < 3 {
			if fl, _ = RunSpaceHistory(c, tier, r.Space, from, r.Index); fl == nil {
				break
			}
			ok++
		}
		if ok == 3 {
			r.Fail, r.From = fl, from
			return true
		}
		if from == lo {
			break
		}
	}
	return false
}

func runGuarded(sp *Space, w *W, stop func() bool) (fl *Fail, n uint64, full bool) {
	defer func() {
		if r := recover(); r != nil {
			fl = &Fail{Key: "panic", Input: sp.Name, Want: "no panic", Got: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
			if p, ok := r.(*CasePanic); ok {
				fl.Input, fl.Key = p.Input, p.Key
				fl.Got = fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack)
			}
		}
	}()
	return sp.Run(w, stop)
}

var procSeed = maphash.MakeSeed()

func newW() *W { return &W{states: map[uint64]struct{}{}, seed: procSeed} }

// Workers is the parallelism used.
func Workers() int {
	n := runtime.GOMAXPROCS(0)
	if n > 8 {
		n = 8
	}
	return n
}

// Run explores all spaces of c and writes the evidence file.  It returns the process exit code.
func Run(c *Check, tier string) int {
	start := time.Now()
	limit := 400 * time.Second
	if tier == "thorough" {
		limit = 5 * time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE_S")); err == nil {
		limit = time.Duration(v) * time.Second
	}
	deadline := start.Add(limit)
	findings := LoadFindings(c.ID)
	known := map[string]bool{}
	for _, f := range findings {
		known[f.Key] = true
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.Text)
	}

	var stats []spaceStat
	var res *Result
	unconfirmed := 0
	knownHits := map[string]uint64{}
	states := map[uint64]struct{}{}
	var trans, traces, cases uint64
	var samples []string
	capped := false
	exhaustive := true

	spaces := c.Spaces(tier)
	only := os.Getenv("VERIF_SPACE")
	collect, _ := strconv.Atoi(os.Getenv("VERIF_COLLECT")) // development aid: list failures per space and go on
	for si := range spaces {
		sp := &spaces[si]
		if only != "" && sp.Name != only {
			continue
		}
		t0 := time.Now()
		if sp.Setup != nil {
			sp.Setup()
		}
		collected := 0
		var mu sync.Mutex
		var best *Result
		var bestLo uint64
		var stopped atomic.Bool
		var timedOut atomic.Bool
		var next, explored uint64
		var wg sync.WaitGroup
		nw := Workers()
		if sp.Serial || sp.Run != nil {
			nw = 1
		}
		full := true
		ws := make([]*W, nw)
		chunk := sp.N/uint64(nw*64) + 1
		if chunk > 4096 {
			chunk = 4096
		}
		for k := 0; k < nw; k++ {
			w := newW()
			ws[k] = w
			wg.Add(1)
			go func(k int, w *W) {
				defer wg.Done()
				defer unmark(k)
				if sp.Run != nil {
					Mark = func(idx uint64) { mark(k, uint64(si), idx) }
					fl, n, f := runGuarded(sp, w, func() bool {
						if time.Now().After(deadline) {
							timedOut.Store(true)
							return true
						}
						return false
					})
					atomic.AddUint64(&explored, n)
					if !f {
						full = false
					}
					if fl != nil {
						if known[fl.Key] {
							knownHits[fl.Key]++
						} else {
							best = &Result{Fail: fl, Space: sp.Name}
						}
					}
					return
				}
				f := sp.New(w)
				for !stopped.Load() {
					lo := atomic.AddUint64(&next, chunk) - chunk
					if lo >= sp.N {
						return
					}
					hi := lo + chunk
					if hi > sp.N {
						hi = sp.N
					}
					for i := lo; i < hi; i++ {
						mark(k, uint64(si), i)
						fl := guarded(f, i)
						if fl != nil {
							mu.Lock()
							if known[fl.Key] {
								knownHits[fl.Key]++
								mu.Unlock()
								continue
							}
							if collect > 0 {
								if collected < collect {
									collected++
									fmt.Printf("FAIL %s#%d\n input: %s\n want:  %s\n got:   %s\n", sp.Name, i, fl.Input, fl.Want, fl.Got)
								}
								mu.Unlock()
								continue
							}
							if best == nil || i < best.Index {
								best, bestLo = &Result{fl, sp.Name, i, i}, lo
							}
							mu.Unlock()
							stopped.Store(true)
							atomic.AddUint64(&explored, i-lo+1)
							return
						}
					}
					atomic.AddUint64(&explored, hi-lo)
					if time.Now().After(deadline) {
						timedOut.Store(true)
						return
					}
				}
			}(k, w)
		}
		wg.Wait()
		if timedOut.Load() || (sp.Run == nil && explored < sp.N) {
			full = false
		}
		for _, w := range ws {
			trans += w.trans
			traces += w.traces
			capped = capped || w.capped
			for h := range w.states {
				if len(states) < 16<<20 {
					states[h] = struct{}{}
				} else {
					capped = true
				}
			}
			if len(samples) < 12 {
				for _, s := range w.sample {
					if len(samples) < 12 {
						samples = append(samples, sp.Name+": "+s)
					}
				}
			}
		}
		cases += explored
		if !full {
			exhaustive = false
		}
		stats = append(stats, spaceStat{sp.Name, sp.N, explored, full, sp.Note, time.Since(t0).Seconds()})
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Printf("  space %-28s cases=%d explored=%d %.2fs\n", sp.Name, sp.N, explored, time.Since(t0).Seconds())
		}
		if best != nil {
			// Confirm: the same case must fail every time.
			ok := 0
			reps := 5
			if sp.Run != nil {
				reps = 1
			}
			for r := 0; r < reps; r++ {
				if fl, _ := RunSpaceIndex(c, tier, best.Space, best.Index); fl != nil {
					ok++
				}
			}
			if ok == reps {
				res = best
				break
			}
			if sp.Run == nil && confirmHistory(c, tier, best, bestLo) {
				res = best
				break
			}
			unconfirmed++
			fmt.Printf("note: case %s#%d failed once but not in %d of %d repetitions; not reported: %s\n", best.Space, best.Index, reps-ok, reps, best.Fail.Input)
			exhaustive = false
		}
	}

	viol := 0
	if res != nil {
		viol = 1
	}
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	WriteEvidence(c.ID, map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{
			"states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
			"cases": cases, "samples": samples, "exhaustive": exhaustive && viol == 0,
			"states_capped": capped, "spaces": stats, "bound": c.Bound,
			"unconfirmed": unconfirmed, "known_finding_cases": knownHits,
		},
		"assumptions": c.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	})
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%v %.1fs\n", c.ID, tier, cases, len(states), trans, traces, exhaustive && viol == 0, time.Since(start).Seconds())
	if res != nil {
		ReportViolation(c.ID, tier, res.Space, res.From, res.Index, res.Fail)
		return 1
	}
	return 0
}

// WriteEvidence writes evidence/<id>.json.
func WriteEvidence(id string, v interface{}) {
	dir := filepath.Join(Root(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
}

// ReportViolation writes the replay file and prints the VIOLATION line.
func ReportViolation(id, tier, space string, from, idx uint64, f *Fail) {
	dir := filepath.Join(Root(), "evidence", "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, strings.ReplaceAll(space, "/", "_"), idx))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": id, "tier": tier, "space": space, "index": idx, "from": from,
		"key": f.Key, "input": f.Input, "want": f.Want, "got": f.Got,
		"replay_cmd": fmt.Sprintf("%s/check.sh --replay %s", Root(), path),
	}, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("input: %s\nwant:  %s\ngot:   %s\n", f.Input, f.Want, f.Got)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
}

// SortedKeys of a string map.
func SortedKeys(m map[string]string) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// NewW returns a fresh worker context (for Run-style spaces with their own workers).
func NewW() *W { return newW() }

// AddTraces counts n complete executions.
func (w *W) AddTraces(n uint64) { w.traces += n }
