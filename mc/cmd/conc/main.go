// Command conc explores all interleavings, at lock operations, of small
// concurrent programs over one file (property C22).
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"

	"inimc/core"
)

const property = "C22"

type result struct {
	Space     int
	Index     uint64
	Programs  uint64
	Schedules uint64
	Trans     uint64
	States    []uint64
	Done      bool // whole share explored
	Fail      *core.Fail
	Samples   []string
}

func main() {
	id := flag.String("property", property, "")
	tier := flag.String("tier", "quick", "")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	if *id != property {
		fmt.Println("this explorer only knows", property)
		os.Exit(3)
	}
	if *tier == "" {
		*tier = "quick"
	}
	if d := os.Getenv("CONC_CHILD"); d != "" {
		child(*tier, d)
		return
	}
	dir, err := os.MkdirTemp("", "conc-")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	code := 3
	if *replay != "" {
		code = replayFile(*replay, dir)
	} else {
		code = coordinate(*tier, dir)
	}
	os.RemoveAll(dir)
	os.Exit(code)
}

// spawn starts a child exploring the programs of all spaces with index = part mod parts,
// or a single program.
func spawn(tier, dir string, part, parts int, one string) *exec.Cmd {
	self, _ := os.Executable()
	cmd := exec.Command(self, "-tier", tier)
	cmd.Env = append(os.Environ(), "CONC_CHILD="+dir, "CONC_PART="+strconv.Itoa(part), "CONC_PARTS="+strconv.Itoa(parts), "CONC_ONE="+one,
		"GOMAXPROCS=1", fmt.Sprintf("GORACE=log_path=%s/race halt_on_error=0 exitcode=0 atexit_sleep_ms=0", dir))
	cmd.Stdout = os.Stdout
	cmd.Stderr = os.Stderr
	if os.Getenv("CONC_STDERR") == "" {
		cmd.Stderr = nil
	}
	return cmd
}

func read(dir string) (r result, ok bool) {
	b, err := os.ReadFile(filepath.Join(dir, "result.json"))
	if err != nil {
		return r, false
	}
	return r, json.Unmarshal(b, &r) == nil
}

func coordinate(tier, dir string) int {
	start := time.Now()
	parts := runtime.NumCPU()
	if parts > 8 {
		parts = 8
	}
	var dirs []string
	var cmds []*exec.Cmd
	for k := 0; k < parts; k++ {
		d := filepath.Join(dir, strconv.Itoa(k))
		_ = os.Mkdir(d, 0o755)
		dirs = append(dirs, d)
		c := spawn(tier, d, k, parts, "")
		if err := c.Start(); err != nil {
			fmt.Println(err)
			return 3
		}
		cmds = append(cmds, c)
	}
	var all result
	states := map[uint64]bool{}
	var best *result
	exhaustive := true
	broken := ""
	for k, c := range cmds {
		err := c.Wait()
		r, ok := read(dirs[k])
		if !ok {
			broken = fmt.Sprintf("part %d ended without a result: %v", k, err)
			exhaustive = false
			continue
		}
		all.Programs += r.Programs
		all.Schedules += r.Schedules
		all.Trans += r.Trans
		for _, s := range r.States {
			states[s] = true
		}
		if len(all.Samples) < 12 {
			all.Samples = append(all.Samples, r.Samples...)
		}
		exhaustive = exhaustive && r.Done
		if r.Fail != nil && (best == nil || r.Space < best.Space || r.Space == best.Space && r.Index < best.Index) {
			rr := r
			best = &rr
		}
	}
	sp := spaces(tier)
	if best != nil {
		ok := 0
		for i := 0; i < 3; i++ {
			d := filepath.Join(dir, "confirm"+strconv.Itoa(i))
			_ = os.Mkdir(d, 0o755)
			c := spawn(tier, d, 0, 1, fmt.Sprintf("%d:%d", best.Space, best.Index))
			_ = c.Run()
			if r, got := read(d); got && r.Fail != nil {
				ok++
			}
		}
		if ok < 3 {
			fmt.Printf("note: program %s#%d failed once but only %d of 3 times alone; not reported: %s\n", sp[best.Space].name, best.Index, ok, best.Fail.Input)
			broken = "unconfirmed failure"
			best = nil
		}
	}
	viol := 0
	if best != nil {
		viol = 1
	}
	if len(all.Samples) == 0 {
		all.Samples = []string{"(none)"}
	}
	var notes []map[string]interface{}
	for _, s := range sp {
		notes = append(notes, map[string]interface{}{"name": s.name, "programs": s.n, "note": s.note})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	core.WriteEvidence(property, map[string]interface{}{
		"property": property, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": len(states), "transitions": all.Trans, "traces_validated_against_impl": all.Schedules,
			"schedules": all.Schedules, "cases": all.Programs, "samples": all.Samples, "exhaustive": exhaustive && viol == 0,
			"spaces": notes, "bound": bound,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	})
	fmt.Printf("%s %s: programs=%d schedules=%d states=%d transitions=%d exhaustive=%v %.1fs\n", property, tier, all.Programs, all.Schedules, len(states), all.Trans, exhaustive && viol == 0, time.Since(start).Seconds())
	if best != nil {
		core.ReportViolation(property, tier, sp[best.Space].name, best.Index, best.Index, best.Fail)
		return 1
	}
	if broken != "" {
		fmt.Println(broken)
		return 3
	}
	return 0
}

func replayFile(path, dir string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var r struct {
		Tier, Space string
		Index       uint64
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 3
	}
	for i, s := range spaces(r.Tier) {
		if s.name == r.Space {
			_ = spawn(r.Tier, dir, 0, 1, fmt.Sprintf("%d:%d", i, r.Index)).Run()
			res, ok := read(dir)
			if !ok {
				fmt.Println("no result")
				return 3
			}
			if res.Fail != nil {
				fmt.Printf("input: %s\nwant:  %s\ngot:   %s\n", res.Fail.Input, res.Fail.Want, res.Fail.Got)
				return 1
			}
			fmt.Println("program holds under all schedules")
			return 0
		}
	}
	fmt.Println("unknown space", r.Space)
	return 3
}

var progress atomic.Uint64 // programs and schedules finished, for the watchdog

func child(tier, dir string) {
	part, _ := strconv.Atoi(os.Getenv("CONC_PART"))
	parts, _ := strconv.Atoi(os.Getenv("CONC_PARTS"))
	limit := 420 * time.Second
	if tier == "thorough" {
		limit = 5 * time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE_S")); err == nil {
		limit = time.Duration(v) * time.Second
	}
	deadline := time.Now().Add(limit)
	sp := spaces(tier)
	res := &result{Done: true}
	x := newExplorer(dir)
	finish := func() {
		res.Schedules, res.Trans = x.schedules, x.trans
		for s := range x.states {
			res.States = append(res.States, s)
		}
		b, _ := json.Marshal(res)
		_ = os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644)
	}
	go func() { // watchdog: a schedule that never ends
		last, since := uint64(0), time.Now()
		for {
			time.Sleep(time.Second)
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 60*time.Second {
				res.Fail = &core.Fail{Key: x.describe(), Input: x.describe(), Want: "every operation returns", Got: "no progress for 60 s: an operation spins or blocks outside the locks"}
				finish()
				os.Exit(1)
			}
		}
	}()
	oneSpace, oneIndex := -1, uint64(0)
	if s := os.Getenv("CONC_ONE"); s != "" {
		_, _ = fmt.Sscanf(s, "%d:%d", &oneSpace, &oneIndex)
	}
	only := os.Getenv("VERIF_SPACE")
	for si := range sp {
		if oneSpace >= 0 && si != oneSpace || only != "" && sp[si].name != only {
			continue
		}
		t0 := time.Now()
		s0 := x.schedules
		for i := uint64(part); i < sp[si].n; i += uint64(parts) {
			if oneSpace >= 0 {
				i = oneIndex
			}
			if time.Now().After(deadline) {
				res.Done = false
				finish()
				return
			}
			p := sp[si].program(i)
			if p == nil {
				continue
			}
			res.Programs++
			if res.Programs%5000 == 77 && len(res.Samples) < 2 {
				res.Samples = append(res.Samples, p.String())
			}
			if fl := x.explore(p); fl != nil {
				res.Fail, res.Space, res.Index = fl, si, i
				res.Done = false
				finish()
				return
			}
			if oneSpace >= 0 {
				break
			}
		}
		if os.Getenv("VERIF_VERBOSE") != "" && part == 0 {
			fmt.Printf("  space %-20s programs=%d schedules(part 0)=%d %.1fs\n", sp[si].name, sp[si].n, x.schedules-s0, time.Since(t0).Seconds())
		}
	}
	finish()
}

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for len(b) >= 8 {
		h = (h ^ binary.LittleEndian.Uint64(b)) * 1099511628211
		h ^= h >> 29
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
