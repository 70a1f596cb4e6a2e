package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type runOpts struct {
	workers  int
	trace    bool
	maxPaths int
	deadline time.Time
	seed     int64
	maxStep  int64
	verbose  bool
}

type sample struct {
	model Model
	log   []string
	cuts  string
}

// HarnessRun is the exploration of one harness.
type HarnessRun struct {
	sync.Mutex
	P     *Program
	fn    *ssa.Function
	name  string
	deep  bool
	known []Finding
	opt   *runOpts

	queue     []WorkItem
	active    int
	stop      bool
	truncated bool
	cond      *sync.Cond

	paths, completed, pruned, unsupp int
	steps                            int64
	labels                           map[string]int
	passed, failed                   map[string]int
	covers                           map[string]int
	viol                             map[string][]Violation
	unsupMsgs                        map[string]int
	unsupModels                      []sample
	panics                           map[string]int
	samples                          []sample
	reached                          map[string]bool
	order                            bool
	maxDepth                         int
	wall                             time.Duration
	rng                              *rand.Rand
	sampleMax                        int
	spread                           int
}

func (r *HarnessRun) countAssert(l string) {
	r.Lock()
	r.labels[l]++
	r.Unlock()
}

func (r *HarnessRun) discharged(l string, ok bool) {
	r.Lock()
	if ok {
		r.passed[l]++
	} else {
		r.failed[l]++
	}
	r.Unlock()
}

func (r *HarnessRun) cover(l string) {
	r.Lock()
	r.covers[l]++
	r.Unlock()
}

func (r *HarnessRun) ordered() {
	r.Lock()
	r.order = true
	r.Unlock()
}

func (r *HarnessRun) wants(label, known string) bool {
	r.Lock()
	defer r.Unlock()
	return len(r.viol[label+"|"+known]) < 3
}

func (r *HarnessRun) violation(v Violation) {
	r.Lock()
	defer r.Unlock()
	k := v.Label + "|" + v.Known
	if len(r.viol[k]) < 6 {
		r.viol[k] = append(r.viol[k], v)
	}
}

func (r *HarnessRun) lastPanic(in *Interp, x targetPanic) {
	msg := fmt.Sprint(x.v)
	if i, ok := x.v.(Iface); ok {
		msg = fmt.Sprint(i.v)
	}
	msg += x.where
	r.Lock()
	r.panics[msg]++
	r.Unlock()
}

func (r *HarnessRun) push(it WorkItem) {
	r.Lock()
	r.queue = append(r.queue, it)
	r.Unlock()
	r.cond.Signal()
}

func (r *HarnessRun) pop() (WorkItem, bool) {
	r.Lock()
	defer r.Unlock()
	for {
		if r.stop {
			return WorkItem{}, false
		}
		if n := len(r.queue); n > 0 {
			if time.Now().After(r.opt.deadline) || r.opt.maxPaths > 0 && r.paths >= r.opt.maxPaths {
				r.truncated = true
				r.stop = true
				r.cond.Broadcast()
				return WorkItem{}, false
			}
			i := n - 1
			if r.paths%3 == 0 {
				i = r.rng.Intn(n)
			}
			it := r.queue[i]
			r.queue[i] = r.queue[n-1]
			r.queue = r.queue[:n-1]
			r.active++
			r.paths++
			return it, true
		}
		if r.active == 0 {
			r.stop = true
			r.cond.Broadcast()
			return WorkItem{}, false
		}
		r.cond.Wait()
	}
}

func (r *HarnessRun) done() {
	r.Lock()
	r.active--
	r.Unlock()
	r.cond.Broadcast()
}

// worker state survives across paths and harnesses
type worker struct {
	ts *TermStore
	so *Solver
	in *Interp
	n  int
}

func newWorker(P *Program) *worker {
	w := &worker{ts: NewTermStore()}
	w.so = NewSolver(w.ts)
	return w
}

func (w *worker) refresh(P *Program) {
	w.so.certify(false)
	if w.ts.Size() > 1500000 {
		w.so.certify(true)
		w.ts = NewTermStore()
		w.so.ts = w.ts
		w.in = nil
	}
	if w.in == nil {
		w.in = &Interp{P: P, ts: w.ts, shared: map[*ssa.Global]Ptr{}, sinited: map[*ssa.Package]bool{}}
	}
}

func (r *HarnessRun) explore(ws []*worker) {
	t0 := time.Now()
	r.cond = sync.NewCond(&r.Mutex)
	r.queue = []WorkItem{{}}
	r.rng = rand.New(rand.NewSource(r.opt.seed))
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			for {
				it, ok := r.pop()
				if !ok {
					w.so.certify(true)
					return
				}
				r.runPath(w, it)
				r.done()
			}
		}(w)
	}
	wg.Wait()
	r.wall = time.Since(t0)
}

func (r *HarnessRun) runPath(w *worker, it WorkItem) {
	w.refresh(r.P)
	in := w.in
	p := NewPath(w.ts, w.so, it, r.push)
	p.limit = 20000
	in.p = p
	in.glob = map[*ssa.Global]Ptr{}
	in.inited = map[*ssa.Package]bool{}
	in.vfs = newVFS()
	in.env = map[string]Value{}
	in.penv = map[string]Value{}
	in.args = nil
	in.reached = map[string]bool{}
	in.memo = map[string]any{}
	in.steps, in.depth, in.cur, in.mapMode, in.inRun = 0, 0, nil, 0, false
	in.maxStep = r.opt.maxStep
	in.h = &HarnessState{run: r, tags: map[string]Value{}}
	status := "done"
	msg := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch e := x.(type) {
				case pathEnd:
					status = "pruned"
					if e.why == "stop" {
						status = "done"
					}
				case unsupported:
					status, msg = "unsup", e.msg
				case targetPanic:
					status = "unsup"
					msg = "harness panic: " + fmt.Sprint(e.v)
					msg += e.where
				case runExit:
					status, msg = "unsup", "harness exit"
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						debug.PrintStack()
						where := ""
						for f := in.cur; f != nil; f = f.caller {
							where += " < " + f.fi.name
						}
						fmt.Fprintln(os.Stderr, "ENGINE PANIC", x, where)
						os.Exit(3)
					}
					where := ""
					if in.cur != nil {
						where = in.cur.fi.name
					}
					status, msg = "unsup", fmt.Sprintf("engine: %v in %s", x, where)
				}
				if status == "unsup" && in.cur != nil {
					msg += " @ "
					n := 0
					for f := in.cur; f != nil && n < 4; f = f.caller {
						msg += f.fi.name + " "
						n++
					}
				}
			}
		}()
		in.callFn(r.fn, nil, nil)
	}()
	r.Lock()
	defer r.Unlock()
	r.steps += in.steps
	for k := range in.reached {
		r.reached[k] = true
	}
	if len(p.trace) > r.maxDepth {
		r.maxDepth = len(p.trace)
	}
	switch status {
	case "done":
		r.completed++
		r.keepSample(in)
	case "pruned":
		r.pruned++
	case "unsup":
		r.unsupp++
		r.unsupMsgs[msg]++
		if len(r.unsupModels) < 40 {
			r.unsupModels = append(r.unsupModels, sample{model: p.copyModel(), cuts: msg})
		}
	}
}

// keepSample keeps some completed paths for replay against the real binary (reservoir).
func (r *HarnessRun) keepSample(in *Interp) {
	if r.sampleMax == 0 {
		return
	}
	i := len(r.samples)
	if i >= r.sampleMax {
		i = r.rng.Intn(r.completed)
		if i >= r.sampleMax {
			return
		}
	}
	s := sample{model: in.p.copyModel()}
	for _, f := range in.h.log {
		s.log = append(s.log, f(in.p.model))
	}
	if i == len(r.samples) {
		r.samples = append(r.samples, s)
	} else {
		r.samples[i] = s
	}
}

func sortedCounts(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s x%d", k, m[k]))
	}
	return out
}

var _ = strings.Join
