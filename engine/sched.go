package main

// Goroutines, channels, select, mutual exclusion: explicit-schedule mode.
// Scheduling choices are decision variables of the exploration.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type pendOp struct {
	objs []interface{}
	w    bool
	any  bool // unknown: dependent with everything
	none bool // not started: independent of everything
}

func dependent(a, b pendOp) bool {
	if a.none || b.none {
		return false
	}
	if a.any || b.any {
		return true
	}
	if !a.w && !b.w {
		return false
	}
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x == y {
				return true
			}
		}
	}
	return false
}

type Thread struct {
	id      int
	name    string
	resume  chan struct{}
	body    func()
	top     *Frame
	done    bool
	blocked func() bool
	pend    pendOp
	vc      []int
	started bool
	po      bool
	owner   int32
}

func (m *Machine) newThread(name string) *Thread {
	t := &Thread{id: len(m.threads), name: name, resume: make(chan struct{}, 1), pend: pendOp{none: true}}
	m.threads = append(m.threads, t)
	return t
}

func (m *Machine) startThread(t *Thread) {
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		<-t.resume
		if m.abort {
			return
		}
		defer func() {
			r := recover()
			if m.abort {
				return
			}
			switch x := r.(type) {
			case nil:
			case pathEnd:
				m.finish(x)
				return
			case targetPanic:
				func() {
					defer func() {
						if pe, ok := recover().(pathEnd); ok {
							m.finish(pe)
							return
						}
						m.finish(pathEnd{endViolation, "panic"})
					}()
					m.onPanic(x)
				}()
				return
			default:
				m.finish(pathEnd{endUnsupported, fmt.Sprintf("engine error: %v @ %s\n%s", x, t.stack(), engineStack())})
				return
			}
			if t.id == 0 {
				m.finish(pathEnd{endNormal, ""})
				return
			}
			t.done = true
			func() {
				defer func() {
					if pe, ok := recover().(pathEnd); ok {
						m.finish(pe)
					}
				}()
				m.pickNext(nil)
			}()
		}()
		t.started = true
		t.body()
	}()
}

func (m *Machine) enabled(t *Thread) bool {
	return !t.done && (t.blocked == nil || t.blocked())
}

// alone reports whether no other thread can interleave.
func (m *Machine) alone() bool {
	for _, t := range m.threads {
		if t != m.cur && !t.done && !t.po {
			return false
		}
	}
	return true
}

// yieldPoint is called before every visible operation.
func (m *Machine) yieldPoint(w bool, objs ...interface{}) {
	if m.po != nil && m.po.active() {
		return
	}
	if len(m.threads) == 1 || m.initing > 0 || m.alone() {
		return
	}
	th := m.cur
	th.pend = pendOp{objs: objs, w: w}
	m.pickNext(th)
}

func (m *Machine) blockUntil(pred func() bool, objs ...interface{}) {
	if pred() {
		return
	}
	if m.po != nil && m.po.active() {
		panic(poBlocked{})
	}
	th := m.cur
	th.blocked = pred
	th.pend = pendOp{objs: objs, w: true}
	for !pred() {
		m.pickNext(th)
	}
	th.blocked = nil
}

// pickNext decides which thread runs next and hands the baton over. th is the
// current thread (nil when it has just finished).
func (m *Machine) pickNext(th *Thread) {
	var cands []*Thread
	curEn := th != nil && m.enabled(th)
	if curEn {
		cands = append(cands, th)
	}
	for _, t := range m.threads {
		if t != th && !t.po && m.enabled(t) {
			cands = append(cands, t)
		}
	}
	if len(cands) == 0 {
		m.deadlock()
	}
	if m.opts.Preempt < 0 {
		n := cands[:0:0]
		for _, c := range cands {
			if !m.inSleep(c.id) {
				n = append(n, c)
			}
		}
		if len(n) == 0 {
			panic(pathEnd{endRedundant, ""})
		}
		cands = n
	} else if curEn && m.preempts >= m.opts.Preempt {
		cands = cands[:1]
	}
	if m.serial {
		cands = cands[:1]
	}
	pick := cands[0]
	if e := m.nextSched(len(cands) > 1 || m.opts.Preempt < 0); e != nil {
		pick = nil
		for _, c := range cands {
			if c.id == e.Choice {
				pick = c
			}
		}
		if pick == nil {
			panic("schedule replay mismatch")
		}
		m.applySleep(pick, e.Sleep)
	} else if len(cands) > 1 || m.opts.Preempt < 0 {
		for i := len(cands) - 1; i >= 1; i-- {
			var sl []int
			if m.opts.Preempt < 0 {
				for _, c := range cands[:i] {
					sl = append(sl, c.id)
				}
			}
			noteFork(m, "sched")
			m.sibling(Entry{Kind: 's', Choice: cands[i].id, Sleep: sl})
		}
		m.push(Entry{Kind: 's', Choice: pick.id})
		m.applySleep(pick, nil)
	}
	if curEn && pick != th {
		m.preempts++
	}
	m.sched = append(m.sched, SchedStep{Thread: pick.id})
	if pick == th {
		return
	}
	m.cur = pick
	m.curOwner = pick.owner
	pick.resume <- struct{}{}
	if th != nil {
		<-th.resume
		if m.abort {
			panic(pathEnd{endRedundant, "aborted"})
		}
		m.cur = th
		m.curOwner = th.owner
	}
}

func (m *Machine) nextSched(needed bool) *Entry {
	if !needed {
		return nil
	}
	return m.next('s')
}

func (m *Machine) inSleep(id int) bool {
	for _, s := range m.sleepSet() {
		if s == id {
			return true
		}
	}
	return false
}

func (m *Machine) sleepSet() []int { return m.sleep }

func (m *Machine) applySleep(pick *Thread, add []int) {
	if m.opts.Preempt >= 0 {
		return
	}
	var n []int
	seen := map[int]bool{}
	for _, s := range append(append([]int{}, m.sleep...), add...) {
		if seen[s] || s == pick.id {
			continue
		}
		seen[s] = true
		if !dependent(m.threads[s].pend, pick.pend) {
			n = append(n, s)
		}
	}
	m.sleep = n
}

func (m *Machine) deadlock() {
	if m.opts.DeadlockOK {
		panic(pathEnd{endNormal, "blocked"})
	}
	m.violation("deadlock: all goroutines blocked", nil)
	panic(pathEnd{endViolation, "deadlock"})
}

func (m *Machine) spawn(fr *Frame, fn Value, args []Value) {
	if m.po != nil && m.po.active() {
		m.unsupported("go statement inside PO thread")
	}
	t := m.newThread(fmt.Sprintf("g%d", len(m.threads)))
	m.hbFork(t)
	if m.po == nil && m.opts.PO { // goroutines created in PO set-up become PO threads
		t.po = true
	}
	t.body = func() {
		m.callValue(nil, fn, args)
	}
	if t.po {
		m.poPending = append(m.poPending, t)
		return
	}
	m.startThread(t)
	m.yieldPoint(true, t)
}

// ---- channels ----

type selState struct {
	fired  bool
	idx    int
	val    Value
	ok     bool
	closed bool
	th     *Thread
}
type waiter struct {
	sel  *selState
	idx  int
	val  Value
	send bool
}
type ChanV struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	timer  bool
	nowT   types.Type
	vc     []int
}

func (m *Machine) nextChanID() int { m.chanSeq++; return m.chanSeq }

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}
func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (m *Machine) chanSend(ch *ChanV, v Value) {
	v = m.copyVal(v)
	if ch == nil {
		m.blockUntil(func() bool { return false })
	}
	m.yieldPoint(true, ch)
	m.doSend(ch, v)
}

func (m *Machine) doSend(ch *ChanV, v Value) {
	if ch.closed {
		m.goPanic("send on closed channel")
	}
	m.hbRelAcq(&ch.vc)
	if w := popWaiter(&ch.recvq); w != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		return
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return
	}
	s := &selState{th: m.cur}
	ch.sendq = append(ch.sendq, &waiter{sel: s, val: v, send: true})
	m.blockUntil(func() bool { return s.fired }, ch)
	m.hbRelAcq(&ch.vc)
	if s.closed {
		m.goPanic("send on closed channel")
	}
}

func (m *Machine) recvReady(ch *ChanV) bool {
	if ch == nil {
		return false
	}
	if ch.timer {
		return m.tickLeft > 0
	}
	return len(ch.buf) > 0 || ch.closed || hasWaiter(ch.sendq)
}

// takeNow performs a receive known to be ready.
func (m *Machine) takeNow(ch *ChanV, elem types.Type) (Value, *Term) {
	if ch.timer {
		m.tickLeft--
		return m.timeNow(elem), m.c.T
	}
	m.hbRelAcq(&ch.vc)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.sel.fired, w.sel.idx = true, w.idx
		}
		return v, m.c.T
	}
	if w := popWaiter(&ch.sendq); w != nil {
		w.sel.fired, w.sel.idx = true, w.idx
		return w.val, m.c.T
	}
	return m.zero(elem), m.c.F
}

func (m *Machine) chanRecv(ch *ChanV, elem types.Type) (Value, *Term) {
	if ch == nil {
		m.blockUntil(func() bool { return false })
	}
	m.yieldPoint(true, ch)
	if m.recvReady(ch) {
		return m.takeNow(ch, elem)
	}
	if ch.timer {
		m.blockUntil(func() bool { return m.tickLeft > 0 }, ch)
		return m.takeNow(ch, elem)
	}
	s := &selState{th: m.cur}
	ch.recvq = append(ch.recvq, &waiter{sel: s})
	m.blockUntil(func() bool { return s.fired }, ch)
	m.hbRelAcq(&ch.vc)
	if !s.ok {
		return m.zero(elem), m.c.F
	}
	return s.val, m.c.T
}

func (m *Machine) chanClose(ch *ChanV) {
	if ch == nil {
		m.goPanic("close of nil channel")
	}
	m.yieldPoint(true, ch)
	if ch.closed {
		m.goPanic("close of closed channel")
	}
	ch.closed = true
	m.hbRelAcq(&ch.vc)
	for _, w := range ch.recvq {
		if !w.sel.fired {
			w.sel.fired, w.sel.idx, w.sel.ok, w.sel.closed = true, w.idx, false, true
		}
	}
	for _, w := range ch.sendq {
		if !w.sel.fired {
			w.sel.fired, w.sel.idx, w.sel.closed = true, w.idx, true
		}
	}
	ch.recvq, ch.sendq = nil, nil
}

func (fr *Frame) selectStmt(x *ssa.Select) Value {
	m := fr.m
	type st struct {
		ch   *ChanV
		send bool
		v    Value
		elem types.Type
	}
	var ss []st
	var objs []interface{}
	for _, s := range x.States {
		e := st{ch: fr.val(s.Chan).(*ChanV), send: s.Dir == types.SendOnly, elem: under(s.Chan.Type()).(*types.Chan).Elem()}
		if e.send {
			e.v = m.copyVal(fr.val(s.Send))
		}
		ss = append(ss, e)
		if e.ch != nil {
			objs = append(objs, e.ch)
		}
	}
	m.yieldPoint(true, objs...)
	result := func(idx int, v Value, ok *Term) Value {
		r := TupleV{m.constInt(int64(idx)), ok}
		for i, s := range ss {
			if s.send {
				continue
			}
			if i == idx {
				r = append(r, v)
			} else {
				r = append(r, m.zero(s.elem))
			}
		}
		return r
	}
	ready := func() []int {
		var rd []int
		for i, s := range ss {
			if s.ch == nil {
				continue
			}
			if s.send {
				if s.ch.closed || len(s.ch.buf) < s.ch.cap || hasWaiter(s.ch.recvq) {
					rd = append(rd, i)
				}
			} else if m.recvReady(s.ch) {
				rd = append(rd, i)
			}
		}
		return rd
	}
	fire := func(i int) Value {
		s := ss[i]
		if s.send {
			m.doSend(s.ch, s.v)
			return result(i, nil, m.c.F)
		}
		v, ok := m.takeNow(s.ch, s.elem)
		return result(i, v, ok)
	}
	rd := ready()
	if len(rd) > 0 {
		timerOnly := true
		for _, i := range rd {
			if !ss[i].ch.timer {
				timerOnly = false
			}
		}
		n := len(rd)
		if timerOnly && !x.Blocking {
			n++ // the timer may also not have fired yet
		}
		m.envDep = m.envDep || n > 1
		k := m.choose(n)
		if k == len(rd) {
			return result(-1, nil, m.c.F)
		}
		return fire(rd[k])
	}
	if !x.Blocking {
		return result(-1, nil, m.c.F)
	}
	s := &selState{th: m.cur}
	timer := false
	for i, c := range ss {
		if c.ch == nil {
			continue
		}
		if c.ch.timer {
			timer = true
			continue
		}
		w := &waiter{sel: s, idx: i, val: c.v, send: c.send}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	m.blockUntil(func() bool { return s.fired || (timer && m.tickLeft > 0) }, objs...)
	if !s.fired {
		s.fired = true
		for i, c := range ss {
			if c.ch != nil && c.ch.timer {
				return fire(i)
			}
		}
	}
	if c := ss[s.idx]; c.send {
		m.hbRelAcq(&c.ch.vc)
		if s.closed {
			m.goPanic("send on closed channel")
		}
		return result(s.idx, nil, m.c.F)
	} else {
		m.hbRelAcq(&c.ch.vc)
		if !s.ok {
			return result(s.idx, m.zero(c.elem), m.c.F)
		}
		return result(s.idx, s.val, m.c.T)
	}
}

// ---- happens-before race detection ----

type raceSt struct {
	wt, wc int
	r      map[int]int
}

func vcGet(vc []int, i int) int {
	if i < len(vc) {
		return vc[i]
	}
	return 0
}
func vcSet(vc *[]int, i, v int) {
	for len(*vc) <= i {
		*vc = append(*vc, 0)
	}
	(*vc)[i] = v
}
func vcJoin(a *[]int, b []int) {
	for i, v := range b {
		if v > vcGet(*a, i) {
			vcSet(a, i, v)
		}
	}
}

func (m *Machine) hbFork(t *Thread) {
	if m.cur == nil {
		return
	}
	p := m.cur
	if vcGet(p.vc, p.id) == 0 {
		vcSet(&p.vc, p.id, 1)
	}
	vcJoin(&t.vc, p.vc)
	vcSet(&t.vc, t.id, 1)
	vcSet(&p.vc, p.id, vcGet(p.vc, p.id)+1)
}
func (m *Machine) hbAcq(o *[]int) {
	if m.cur != nil {
		vcJoin(&m.cur.vc, *o)
	}
}
func (m *Machine) hbRel(o *[]int) {
	t := m.cur
	if t == nil {
		return
	}
	if vcGet(t.vc, t.id) == 0 {
		vcSet(&t.vc, t.id, 1)
	}
	vcJoin(o, t.vc)
	vcSet(&t.vc, t.id, vcGet(t.vc, t.id)+1)
}
func (m *Machine) hbRelAcq(o *[]int) { m.hbAcq(o); m.hbRel(o) }

func (m *Machine) raceRead(c *Cell) {
	if m.initing > 0 {
		return
	}
	s := m.race[c]
	if s == nil {
		s = &raceSt{wt: -1, r: map[int]int{}}
		m.race[c] = s
	}
	m.raceR(s, "data race")
}
func (m *Machine) raceWrite(c *Cell) {
	if m.initing > 0 {
		return
	}
	s := m.race[c]
	if s == nil {
		s = &raceSt{wt: -1, r: map[int]int{}}
		m.race[c] = s
	}
	m.raceW(s, "data race")
}
func (m *Machine) raceMap(mv *MapV, w bool) {
	s := m.raceM[mv]
	if s == nil {
		s = &raceSt{wt: -1, r: map[int]int{}}
		m.raceM[mv] = s
	}
	if w {
		m.raceW(s, "concurrent map access")
	} else {
		m.raceR(s, "concurrent map access")
	}
}
func (m *Machine) raceR(s *raceSt, what string) {
	t := m.cur
	if s.wt >= 0 && s.wt != t.id && s.wc > vcGet(t.vc, s.wt) {
		m.violation(what+" (unsynchronised read)", nil)
		panic(pathEnd{endViolation, what})
	}
	s.r[t.id] = max(vcGet(t.vc, t.id), 1)
	if vcGet(t.vc, t.id) == 0 {
		vcSet(&t.vc, t.id, 1)
	}
}
func (m *Machine) raceW(s *raceSt, what string) {
	t := m.cur
	if s.wt >= 0 && s.wt != t.id && s.wc > vcGet(t.vc, s.wt) {
		m.violation(what+" (unsynchronised write)", nil)
		panic(pathEnd{endViolation, what})
	}
	for r, c := range s.r {
		if r != t.id && c > vcGet(t.vc, r) {
			m.violation(what+" (unsynchronised write after read)", nil)
			panic(pathEnd{endViolation, what})
		}
	}
	if vcGet(t.vc, t.id) == 0 {
		vcSet(&t.vc, t.id, 1)
	}
	s.wt, s.wc = t.id, vcGet(t.vc, t.id)
	s.r = map[int]int{}
}
