package checks

import (
	"fmt"
	"hash/maphash"
	"sync"
	"sync/atomic"

	"inimc/core"
	"inimc/ref"
)

var bfsSeed = maphash.MakeSeed()

// bfs explores one start document level by level, in parallel within a level.
func bfs(w *core.W, o *optSet, start string, ops []op, depth, maxStates int, stop func() bool) (*core.Fail, uint64, bool) {
	type node struct{ hist []byte }
	seen := map[[2]uint64]struct{}{}
	seed2 := maphash.MakeSeed()
	frontier := []node{{nil}}
	var total uint64
	level := 0
	for len(frontier) > 0 && level < depth {
		level++
		type res struct {
			hist []byte
			key  [2]uint64
		}
		nw := core.Workers()
		outs := make([][]res, nw)
		fails := make([]*core.Fail, nw)
		var next int64
		var wg sync.WaitGroup
		var steps, traces uint64
		var stopped atomic.Bool
		for k := 0; k < nw; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				var buf []byte
				word := make([]int, 0, 16)
				lw := core.NewW()
				local := map[[2]uint64]struct{}{}
				for !stopped.Load() {
					i := int(atomic.AddInt64(&next, 1)) - 1
					if i >= len(frontier) {
						break
					}
					if i%512 == 0 && stop() {
						stopped.Store(true)
						break
					}
					for s := range ops {
						word = word[:0]
						for _, h := range frontier[i].hist {
							word = append(word, int(h))
						}
						word = append(word, s)
						var x *world
						fl := guardFail(func() *core.Fail { var f *core.Fail; x, f = runOpsKeep(lw, o, start, ops, word); return f })
						atomic.AddUint64(&steps, 1)
						atomic.AddUint64(&traces, 1)
						if fl != nil {
							fails[k] = fl
							stopped.Store(true)
							break
						}
						buf = core.Deep(buf[:0], []interface{}{x.lib, x.ls, x.lk})
						buf = core.Deep(buf, []interface{}{x.d, x.ms, x.mk})
						key := [2]uint64{maphash.Bytes(bfsSeed, buf), maphash.Bytes(seed2, buf)}
						if _, ok := seen[key]; ok {
							continue
						}
						if _, ok := local[key]; ok {
							continue
						}
						local[key] = struct{}{}
						outs[k] = append(outs[k], res{append(append([]byte(nil), frontier[i].hist...), byte(s)), key})
					}
				}
			}(k)
		}
		wg.Wait()
		w.Step(int(steps))
		w.AddTraces(traces)
		total += steps
		var best *core.Fail
		for _, f := range fails {
			if f != nil && (best == nil || len(f.Input) < len(best.Input)) {
				best = f
			}
		}
		if best != nil {
			return best, total, false
		}
		if stopped.Load() {
			return nil, total, false
		}
		frontier = frontier[:0]
		for _, out := range outs {
			for _, r := range out {
				if _, ok := seen[r.key]; ok {
					continue
				}
				seen[r.key] = struct{}{}
				w.State([]byte(fmt.Sprint(o.name, start, r.key)))
				frontier = append(frontier, node{r.hist})
			}
		}
		if len(seen) > maxStates {
			w.Sample(fmt.Sprintf("%s from %q: stopped at the state cap, %d states after depth %d complete", o.name, start, len(seen), level))
			return nil, total, false
		}
	}
	closed := len(frontier) == 0
	w.Sample(fmt.Sprintf("%s from %q: %d states, depth %d, closed=%v", o.name, start, len(seen), level, closed))
	return nil, total, true
}

func guardFail(f func() *core.Fail) (fl *core.Fail) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*core.CasePanic); ok {
				fl = &core.Fail{Key: p.Key, Input: p.Input, Want: "no panic", Got: fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack)}
				return
			}
			panic(r)
		}
	}()
	return f()
}

// runOpsKeep is runOps returning the final joint state.
func runOpsKeep(w *core.W, o *optSet, start string, ops []op, word []int) (x *world, res *core.Fail) {
	in := func() string { return describe(o, start, ops, word) }
	core.Guard(in, func() {
		x = newWorld(o, start)
		for j, s := range word {
			a, b := ops[s].f(x)
			if a != b {
				res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("step %d answers %q", j+1, b), Got: fmt.Sprintf("%q", a)}
				return
			}
		}
		if a, b := x.final(w, ref.DefaultFormat); a != b {
			res = &core.Fail{Key: in(), Input: in(), Want: fmt.Sprintf("%q", b), Got: fmt.Sprintf("%q", a)}
		}
	})
	return
}
