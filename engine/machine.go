package main

// Path machine: executes one path of a harness, following a decision prefix and
// asking the solver about every new symbolic decision.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Entry struct {
	Kind   byte // 'b' branch 'v' value 'c' choice 's' schedule
	Choice int
	Val    uint64
	Forced bool
	Sleep  []int
}

type Input struct {
	Label string
	T     *Term
	Sgn   bool
}

type Violation struct {
	Harness string
	Msg     string
	Inputs  []InputVal
	Sched   []SchedStep
	Stack   string
	Native  string
	PO      bool
	Env     bool // depends on values the native replay cannot dictate (clock, pinning, map order ...)
}
type InputVal struct {
	Label string `json:"label"`
	Val   uint64 `json:"val"`
}
type SchedStep struct {
	Thread int    `json:"t"`
	Op     string `json:"op"`
}

type endKind int

const (
	endNormal endKind = iota
	endAssume
	endViolation
	endUnsupported
	endLimit
	endRedundant
	endUnknown
)

type pathEnd struct {
	kind endKind
	msg  string
}

type targetPanic struct {
	v   Value
	msg string
}

// Program-wide, shared by workers (read only after load, except the caches).
type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	info    sync.Map // *ssa.Function -> *funcInfo
	modPath string
	models  map[string]*ssa.Function
}

type Machine struct {
	P    *Program
	W    *Worker
	c    *TermCtx
	s    *Solver
	opts *HOpts

	pc    []*Term
	known map[int32]bool
	subst map[int32]*Term // terms that the path condition fixes to a constant
	trace []Entry
	pos   int
	fresh map[string]int

	inputs   []Input
	envDep   bool
	globals  map[*ssa.Global]*Cell
	inited   map[*ssa.Package]bool
	clock    int64 // when set, the next reading of the clock
	serial   bool  // only one schedule (harness set-up)
	lazied   map[*ssa.Global]bool
	initing  int
	curOwner int32
	mapSeq   int
	steps    int64
	nUndo    bool
	undo     []undoRec

	threads   []*Thread
	cur       *Thread
	preempts  int
	abort     bool
	endc      chan struct{}
	end       pathEnd
	wg        sync.WaitGroup
	sched     []SchedStep
	native    map[*Cell]interface{} // side state of sync objects
	lastNow   *Term
	frozen    *Term // when set, every reading of the clock
	nowCtl    bool
	po        *poState
	violated  []*Violation
	asserts   map[string]int
	reach     map[string]int
	depth     int
	gmaxp     *Term
	limitIsV  string // when non-empty exceeding the step budget is a violation with this message
	environ   map[string]Value
	stepCap   int64
	raceOn    bool
	rendered  map[*Term]*rendering // first digit byte -> the number it renders
	digitOf   map[*Term]*Term      // byte term -> digit it renders
	random    []*Term              // bytes drawn from crypto/rand
	race      map[*Cell]*raceSt
	raceM     map[*MapV]*raceSt
	tickLeft  int
	fns       map[*ssa.Function]bool
	permMaps  bool
	splits    []string
	localQ    *[][]Entry
	threadTag string
	sleep     []int
	chanSeq   int
	poPending []*Thread
	usedPO    bool
}

type undoRec struct {
	c *Cell
	v Value
}

func (m *Machine) unsupported(s string) {
	st := ""
	if m.cur != nil {
		st = m.cur.stack()
	}
	panic(pathEnd{endUnsupported, s + " @ " + st})
}

func (m *Machine) goPanic(s string) {
	panic(targetPanic{v: IfaceV{t: types.Typ[types.String], v: S(s)}, msg: s})
}

// ---- decisions ----

func (m *Machine) next(kind byte) *Entry {
	if m.pos < len(m.trace) {
		e := &m.trace[m.pos]
		if e.Kind != kind {
			panic(fmt.Sprintf("non-deterministic re-execution: want %c have %c at %d", kind, e.Kind, m.pos))
		}
		m.pos++
		return e
	}
	return nil
}

func (m *Machine) push(e Entry) { m.trace = append(m.trace, e); m.pos = len(m.trace) }

// sibling schedules an alternative for the entry about to be pushed.
func (m *Machine) sibling(e Entry) {
	p := make([]Entry, m.pos+1)
	copy(p, m.trace[:m.pos])
	p[m.pos] = e
	if m.localQ != nil {
		*m.localQ = append(*m.localQ, p)
		return
	}
	m.W.addPrefix(p)
}

func (m *Machine) check(extra *Term) Sat {
	if m.po != nil && m.po.running {
		return IsSat // thread paths are enumerated without feasibility queries
	}
	r, _ := m.s.Check(m.pc, extra, false)
	return r
}

func (m *Machine) addFact(t *Term) {
	if t.isC() {
		if t.isFalse() {
			panic(pathEnd{endAssume, ""})
		}
		return
	}
	if m.known[t.id] {
		return
	}
	m.known[t.id] = true
	if t.op == OEq && (m.po == nil || !m.po.running) {
		if t.a.isC() {
			m.setSubst(t.b, t.a)
		} else if t.b.isC() {
			m.setSubst(t.a, t.b)
		}
	}
	if t.op == OAnd {
		m.known[t.a.id] = true
		m.known[t.b.id] = true
	}
	m.pc = append(m.pc, t)
}

func (m *Machine) setSubst(t, c *Term) {
	if t.w == 0 || (m.po != nil && m.po.running) {
		return
	}
	if m.subst == nil {
		m.subst = map[int32]*Term{}
	}
	m.subst[t.id] = c
}

func (m *Machine) branch(c *Term) bool {
	if c.isC() {
		return c.val == 1
	}
	if m.known[c.id] {
		return true
	}
	nc := m.c.Not(c)
	if m.known[nc.id] {
		return false
	}
	if e := m.next('b'); e != nil {
		t := e.Choice == 1
		lit := c
		if !t {
			lit = nc
		}
		if e.Forced {
			m.known[lit.id] = true
		} else {
			m.addFact(lit)
		}
		return t
	}
	rT := m.check(c)
	if rT == IsUnsat {
		m.push(Entry{Kind: 'b', Choice: 0, Forced: true})
		m.known[nc.id] = true
		return false
	}
	rF := m.check(nc)
	if rF == IsUnsat {
		m.push(Entry{Kind: 'b', Choice: 1, Forced: true})
		m.known[c.id] = true
		return true
	}
	if (rT == Unknown || rF == Unknown) && m.s.quick == 0 {
		m.W.noteUnknown("branch feasibility")
	}
	noteFork(m, "branch")
	m.sibling(Entry{Kind: 'b', Choice: 0})
	m.push(Entry{Kind: 'b', Choice: 1})
	m.addFact(c)
	return true
}

// choose is an unconstrained n-way decision (n >= 1).
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e := m.next('c'); e != nil {
		return e.Choice
	}
	noteFork(m, fmt.Sprintf("choose/%d", n))
	for i := n - 1; i >= 1; i-- {
		m.sibling(Entry{Kind: 'c', Choice: i})
	}
	m.push(Entry{Kind: 'c', Choice: 0})
	return 0
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isC() {
		return t.val
	}
	if c, ok := m.subst[t.id]; ok {
		return c.val
	}
	for n := 0; ; n++ {
		if n > m.opts.MaxFanout {
			panic(pathEnd{endLimit, "too many values while concretising"})
		}
		if e := m.next('v'); e != nil {
			eq := m.c.Eq(t, m.c.BV(e.Val, t.w))
			if e.Choice == 1 {
				m.setSubst(t, m.c.BV(e.Val, t.w))
				if !e.Forced {
					m.addFact(eq)
				}
				return e.Val
			}
			m.addFact(m.c.Not(eq))
			continue
		}
		// a named variable makes the value readable from the model
		v := m.c.Var(fmt.Sprintf("cz#%d", t.id), t.w)
		r, mod := m.s.Check(m.pc, m.c.Eq(v, t), true)
		if r == IsUnsat {
			panic(pathEnd{endAssume, ""})
		}
		if r == Unknown {
			panic(pathEnd{endUnknown, "concretise"})
		}
		val := mod[v.name]
		eq := m.c.Eq(t, m.c.BV(val, t.w))
		m.setSubst(t, m.c.BV(val, t.w))
		if m.check(m.c.Not(eq)) == IsUnsat {
			m.push(Entry{Kind: 'v', Choice: 1, Val: val, Forced: true})
			return val
		}
		noteFork(m, "value")
		m.sibling(Entry{Kind: 'v', Choice: 0, Val: val})
		m.push(Entry{Kind: 'v', Choice: 1, Val: val})
		m.addFact(eq)
		return val
	}
}

func (m *Machine) toInt(v Value) int {
	t := v.(*Term)
	if t.isC() {
		return int(t.sval())
	}
	return int(sx(m.concretize(t), t.w))
}

func (m *Machine) newVar(label string, w uint8, sgn, input bool) *Term {
	n := m.fresh[label]
	m.fresh[label]++
	v := m.c.Var(fmt.Sprintf("%s%s#%d", label, m.threadTag, n), w)
	if input {
		m.inputs = append(m.inputs, Input{label, v, sgn})
	}
	return v
}

func (m *Machine) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{endAssume, ""})
	}
	if m.known[c.id] {
		return
	}
	if e := m.next('b'); e != nil {
		m.addFact(c)
		return
	}
	if m.check(c) == IsUnsat {
		panic(pathEnd{endAssume, ""})
	}
	m.push(Entry{Kind: 'b', Choice: 1})
	m.addFact(c)
}

func (m *Machine) assert(c *Term, msg string) {
	m.asserts[msg]++
	if m.po != nil && m.po.running {
		// inside a concurrent thread: an obligation, decided once the schedule is encoded
		m.po.obls = append(m.po.obls, poObl{c, msg})
		if c.isFalse() {
			panic(poBlocked{})
		}
		return
	}
	if m.pos < len(m.trace) && !m.opts.Concrete {
		// already checked on the path that created this prefix (same facts) unless failing
		if e := m.next('b'); e != nil {
			if e.Choice == 1 {
				m.known[c.id] = true
				return
			}
			m.addFact(c)
			return
		}
	}
	if c.isTrue() {
		m.W.noteTrivial()
		m.push(Entry{Kind: 'b', Choice: 1})
		return
	}
	if m.W.X.seen(msg) { // already violated: look for others under the assertion
		if c.isFalse() || m.check(c) == IsUnsat {
			panic(pathEnd{endViolation, msg})
		}
		m.push(Entry{Kind: 'b', Choice: 2})
		m.addFact(c)
		return
	}
	r, model := m.s.Check(m.pc, m.c.Not(c), true)
	m.W.noteAssertQuery()
	switch r {
	case IsUnsat:
		m.push(Entry{Kind: 'b', Choice: 1})
		m.known[c.id] = true
		return
	case Unknown:
		if m.po != nil && m.s.quick > 0 {
			panic(poUndecided{})
		}
		m.W.noteUnknown("assertion: " + msg)
		m.push(Entry{Kind: 'b', Choice: 1})
		return
	}
	m.violation(msg, model)
	// continue under the assertion if possible, to look for other violations
	if c.isFalse() || m.check(c) == IsUnsat {
		panic(pathEnd{endViolation, msg})
	}
	m.push(Entry{Kind: 'b', Choice: 2})
	m.addFact(c)
}

func (m *Machine) violation(msg string, model map[string]uint64) {
	if model == nil {
		r, mod := m.s.Check(m.pc, nil, true)
		if r == IsUnsat {
			return
		}
		if r == Unknown {
			m.W.noteUnknown("model for: " + msg)
			return
		}
		model = mod
	}
	v := &Violation{Harness: m.opts.Name, Msg: msg}
	memo := map[*Term]uint64{}
	for _, in := range m.inputs {
		v.Inputs = append(v.Inputs, InputVal{in.Label, in.T.eval(model, memo)})
	}
	v.Env = m.envDep
	for _, in := range m.inputs {
		switch in.Label {
		case "procpin", "now", "rand":
			v.Env = true
		}
	}
	v.Sched = append(v.Sched, m.sched...)
	if m.po != nil {
		v.PO = true
		v.Sched = m.po.schedule(model)
	}
	if m.cur != nil {
		v.Stack = m.cur.stack()
	}
	m.W.addViolation(v)
}

// panic reached the top of a thread
func (m *Machine) onPanic(p targetPanic) {
	m.violation("panic: "+p.msg, nil)
	panic(pathEnd{endViolation, "panic: " + p.msg})
}

// ---- running a path ----

func NewMachine(w *Worker, opts *HOpts, prefix []Entry) *Machine {
	m := &Machine{P: w.P, W: w, c: w.ctx, s: w.solver, opts: opts,
		known: map[int32]bool{}, trace: append([]Entry{}, prefix...), fresh: map[string]int{},
		globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]bool{}, lazied: map[*ssa.Global]bool{}, native: map[*Cell]interface{}{},
		asserts: map[string]int{}, reach: map[string]int{}, endc: make(chan struct{}), digitOf: map[*Term]*Term{}, rendered: map[*Term]*rendering{}, race: map[*Cell]*raceSt{}, raceM: map[*MapV]*raceSt{},
		fns: map[*ssa.Function]bool{}}
	m.stepCap = opts.MaxSteps
	m.tickLeft = opts.Ticks
	m.permMaps = opts.PermMaps
	return m
}

func (m *Machine) run(fn *ssa.Function) pathEnd {
	t := m.newThread("main")
	t.body = func() { m.call(nil, fn, nil, nil) }
	m.cur = t
	m.startThread(t)
	t.resume <- struct{}{}
	<-m.endc
	// unwind all other threads
	m.abort = true
	for _, t := range m.threads {
		close(t.resume)
	}
	m.wg.Wait()
	return m.end
}

func (m *Machine) finish(e pathEnd) {
	if m.abort {
		return
	}
	m.abort = true
	m.end = e
	close(m.endc)
}

type Frame struct {
	m       *Machine
	th      *Thread
	fn      *ssa.Function
	fi      *funcInfo
	env     []Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	result  Value
	defers  []deferred
	pan     *targetPanic
	caller  *Frame
	free    []Value
	pos     token.Pos
	recov   bool
	depth   int
	iterCnt map[*ssa.BasicBlock]int
}

type deferred struct {
	fn   Value
	args []Value
	b    *ssa.Builtin
}

type funcInfo struct {
	reg   map[ssa.Value]int
	n     int
	reg2  []regionInfo
	merge map[*ssa.BasicBlock]*region
	pure  int8
}

type regionInfo struct{}

func (P *Program) finfo(fn *ssa.Function) *funcInfo {
	if v, ok := P.info.Load(fn); ok {
		return v.(*funcInfo)
	}
	fi := &funcInfo{reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.reg[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.merge = findRegions(fn)
	v, _ := P.info.LoadOrStore(fn, fi)
	return v.(*funcInfo)
}

func (t *Thread) stack() string {
	var sb []string
	f := t.top
	for i := 0; f != nil && i < 8; i++ {
		p := f.m.P.prog.Fset.Position(f.pos)
		fn := p.Filename
		if k := strings.LastIndexByte(fn, '/'); k >= 0 {
			fn = fn[k+1:]
		}
		sb = append(sb, fmt.Sprintf("%s(%s:%d)", f.fn.Name(), fn, p.Line))
		f = f.caller
	}
	return strings.Join(sb, "<")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var startTime = time.Now()

// forks counts where paths split (VERIF_FORKS=1).
var forks sync.Map
var countForks = os.Getenv("VERIF_FORKS") != ""

func noteFork(m *Machine, kind string) {
	if !countForks || m.cur == nil {
		return
	}
	c, _ := forks.LoadOrStore(kind+" "+m.cur.stack(), new(atomic.Int64))
	c.(*atomic.Int64).Add(1)
}

func printForks() {
	var l []string
	forks.Range(func(k, v any) bool {
		l = append(l, fmt.Sprintf("%8d %s", v.(*atomic.Int64).Load(), k))
		return true
	})
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, x := range l[:min(len(l), 40)] {
		fmt.Println("FORK", x)
	}
}
