package main

// Path exploration: a shared pool of decision prefixes processed by parallel workers.

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HOpts struct {
	Name       string
	Tiers      string
	MaxSteps   int64
	MaxFanout  int
	MaxPaths   int64
	Preempt    int
	ChanCap  int // capacities of 64 and more are modelled with this one
	Ticks      int
	PO         bool
	DeadlockOK bool
	NoMerge    bool
	PermMaps   bool
	ConcIdx    bool // fork over the values of a symbolic index
	Concrete   bool
	Timeout    time.Duration
	NoNative   bool
	NoWitness  bool
	Sched      bool
	NativeRace bool
	Retries    int
	Doc        string
}

type Worker struct {
	P      *Program
	X      *Explorer
	ctx    *TermCtx
	solver *Solver
	back   map[*Cell][]Cell
	pathN  int
}

func (w *Worker) noteBacking(f *Cell, c []Cell) { w.back[f] = c }
func (w *Worker) backing(f *Cell, n int) ([]Cell, bool) {
	c, ok := w.back[f]
	if !ok || cap(c) < n {
		return nil, false
	}
	return c[:n], true
}

type Explorer struct {
	P    *Program
	fn   *ssa.Function
	opts *HOpts

	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]Entry
	busy     int
	stop     bool
	deadline time.Time

	Paths, Completed, Pruned, Limits, Unsup, Unknowns, Redundant int64
	Asserts, Trivial, POQueries                                  int64
	Steps                                                        int64
	Incomplete                                                   string
	Notes                                                        map[string]int
	AssertHits                                                   map[string]int
	ReachHits                                                    map[string]int
	Viol                                                         []*Violation
	Fns                                                          map[string]bool
	Samples                                                      []string
	Witness                                                      [][]InputVal
	WitEnv                                                       []bool // the model also fixes values the native run cannot dictate
	Events                                                       int64
	Wall                                                         time.Duration
	KnownMsgs                                                    map[string]bool
	shortened                                                    bool
	violSeen                                                     map[string]bool
}

func (x *Explorer) note(s string) {
	x.mu.Lock()
	x.Notes[s]++
	x.mu.Unlock()
}

func (w *Worker) addPrefix(p []Entry) {
	w.X.mu.Lock()
	w.X.queue = append(w.X.queue, p)
	w.X.cond.Signal()
	w.X.mu.Unlock()
}
func (w *Worker) noteUnknown(s string) {
	atomic.AddInt64(&w.X.Unknowns, 1)
	w.X.note("solver unknown: " + s)
}
func (w *Worker) noteTrivial()     { atomic.AddInt64(&w.X.Trivial, 1) }
func (w *Worker) noteAssertQuery() { atomic.AddInt64(&w.X.Asserts, 1) }

func (w *Worker) addViolation(v *Violation) {
	x := w.X
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.violSeen[v.Msg] {
		return
	}
	x.violSeen[v.Msg] = true
	x.Viol = append(x.Viol, v)
	if x.KnownMsgs[v.Msg] || x.shortened {
		return
	}
	// a new counterexample decides the check: look for others only briefly
	x.shortened = true
	time.AfterFunc(20*time.Second, func() {
		x.mu.Lock()
		if !x.stop {
			x.stop = true
			x.Incomplete = "stopped after a violation"
		}
		x.cond.Broadcast()
		x.mu.Unlock()
	})
}

func (x *Explorer) seen(msg string) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.violSeen[msg]
}

func NewExplorer(P *Program, fn *ssa.Function, o *HOpts) *Explorer {
	x := &Explorer{P: P, fn: fn, opts: o, Notes: map[string]int{}, AssertHits: map[string]int{}, ReachHits: map[string]int{}, Fns: map[string]bool{}, violSeen: map[string]bool{}}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) Run(nw int, budget time.Duration) {
	t0 := time.Now()
	x.deadline = t0.Add(budget)
	x.queue = [][]Entry{nil}
	var wg sync.WaitGroup
	timer := time.AfterFunc(budget, func() {
		x.mu.Lock()
		if !x.stop {
			x.stop = true
			x.Incomplete = "time budget exhausted"
		}
		x.cond.Broadcast()
		x.mu.Unlock()
	})
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *Worker
			for {
				x.mu.Lock()
				for len(x.queue) == 0 && x.busy > 0 && !x.stop {
					x.cond.Wait()
				}
				if x.stop || len(x.queue) == 0 {
					x.cond.Broadcast()
					x.mu.Unlock()
					break
				}
				p := x.queue[len(x.queue)-1]
				x.queue = x.queue[:len(x.queue)-1]
				x.busy++
				x.mu.Unlock()
				if w == nil {
					w = &Worker{P: x.P, X: x, ctx: NewTermCtx()}
					w.solver = NewSolver(w.ctx)
				}
				w.runPath(p)
				x.mu.Lock()
				x.busy--
				if x.busy == 0 && len(x.queue) == 0 {
					x.cond.Broadcast()
				}
				x.mu.Unlock()
			}
			if w != nil {
				w.solver.Close()
			}
		}()
	}
	wg.Wait()
	timer.Stop()
	x.Wall = time.Since(t0)
}

func (w *Worker) runPath(p []Entry) {
	x := w.X
	w.back = map[*Cell][]Cell{}
	w.pathN++
	if w.ctx.next > 600000 { // bound memory: fresh term table
		w.solver.Close()
		w.ctx = NewTermCtx()
		w.solver = NewSolver(w.ctx)
	}
	m := NewMachine(w, x.opts, p)
	e := m.run(x.fn)
	n := atomic.AddInt64(&x.Paths, 1)
	atomic.AddInt64(&x.Steps, m.steps)
	switch e.kind {
	case endNormal:
		k := atomic.AddInt64(&x.Completed, 1)
		if !x.opts.NoWitness && !x.opts.NoNative && !m.usedPO && len(m.threads) == 1 && (k <= 3 || k%37 == 0) && k < 400 {
			if r, mod := m.s.Check(m.pc, nil, true); r == IsSat {
				var ins []InputVal
				memo := map[*Term]uint64{}
				ok := true
				env := m.envDep
				for _, in := range m.inputs {
					if in.Label == "now" || in.Label == "procpin" || in.Label == "rand" {
						env = true
					}
					ins = append(ins, InputVal{in.Label, in.T.eval(mod, memo)})
				}
				x.mu.Lock()
				if ok && len(x.Witness) < 6 {
					x.Witness = append(x.Witness, ins)
					x.WitEnv = append(x.WitEnv, env)
				}
				x.mu.Unlock()
			}
		}
	case endAssume:
		atomic.AddInt64(&x.Pruned, 1)
	case endLimit:
		atomic.AddInt64(&x.Limits, 1)
		x.note("limit: " + e.msg)
	case endUnsupported:
		atomic.AddInt64(&x.Unsup, 1)
		x.note("unsupported: " + e.msg)
	case endRedundant:
		atomic.AddInt64(&x.Redundant, 1)
	case endUnknown:
		atomic.AddInt64(&x.Unknowns, 1)
		x.note("unknown: " + e.msg)
	}
	x.mu.Lock()
	for k, v := range m.asserts {
		x.AssertHits[k] += v
	}
	for k, v := range m.reach {
		x.ReachHits[k] += v
	}
	for f := range m.fns {
		x.Fns[f.String()] = true
	}
	if e.kind == endNormal && len(x.Samples) < 4 {
		s := fmt.Sprintf("%s: decisions=%d facts=%d steps=%d", x.opts.Name, len(m.trace), len(m.pc), m.steps)
		if len(m.splits) > 0 {
			s += fmt.Sprintf(" %v", m.splits)
		}
		x.Samples = append(x.Samples, s)
	}
	if x.opts.MaxPaths > 0 && n >= x.opts.MaxPaths && !x.stop {
		x.stop = true
		x.Incomplete = "path budget exhausted"
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

func (x *Explorer) stopped() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.stop
}
