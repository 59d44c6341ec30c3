package main

// Partial-order concurrency mode. Every thread is executed symbolically on its own: a read of
// shared memory yields a fresh value and every shared access becomes an event. Interleavings
// are then a matter for the solver: event clocks are bit-vector variables, a read-from relation
// connects reads to the latest preceding write, critical sections of one mutex do not overlap,
// and the values left in memory at the end are those of the latest writes. One query covers
// all schedules of the chosen thread paths at once.

import (
	"fmt"
	"go/types"
	"maps"
	"sort"
	"sync/atomic"
)

type poBlocked struct{}

type loc struct {
	c    *Cell
	cond *Term
}

type poEvent struct {
	thread int
	kind   byte // 'r' 'w' 'm'(rmw) 'L' 'U' 'n'(no constraint)
	locs   []loc
	rv     *Term // value read
	wv     *Term // value written
	lock   *Cell
	rlock  bool
	atomic bool
	clk    *Term
	op     string
	seq    int
	tpos   int
}

type poObl struct {
	cond *Term
	msg  string
}

type poPath struct {
	facts []*Term
	evs   []*poEvent
	obls  []poObl
}

type poState struct {
	m            *Machine
	running      bool
	tid          int
	W            map[*Cell]types.Type
	Wlist        []*Cell
	grew         bool
	evs          []*poEvent
	obls         []poObl
	nread        int
	fails        int
	chosen       []*poPath
	threadInputs []Input
	rvs          map[*Term]bool
	clkUsed      bool
}

func (p *poState) active() bool { return p.running }

func (p *poState) addW(c *Cell, t types.Type, v *Term) {
	if _, ok := p.W[c]; ok {
		return
	}
	if t == nil {
		t = basicFor(v)
	}
	p.W[c] = t
	p.Wlist = append(p.Wlist, c)
	p.grew = true
}

func basicFor(v *Term) types.Type {
	switch v.w {
	case 0:
		return types.Typ[types.Bool]
	case 8:
		return types.Typ[types.Uint8]
	case 16:
		return types.Typ[types.Uint16]
	case 32:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

func (p *poState) ev(e *poEvent) *poEvent {
	e.thread = p.tid
	p.evs = append(p.evs, e)
	if len(p.evs) > 400 {
		panic(pathEnd{endLimit, "PO events"})
	}
	return e
}

func (p *poState) freshRead(w uint8) *Term {
	v := p.m.c.Var(fmt.Sprintf("rd.t%d.%d", p.tid, p.nread), w)
	p.nread++
	p.rvs[v] = true
	return v
}

// anyLeafWritten reports whether an aggregate contains a cell of W.
func (p *poState) anyLeafWritten(v Value) bool {
	switch x := v.(type) {
	case *StructV:
		for i := range x.f {
			if _, ok := p.W[&x.f[i]]; ok || p.anyLeafWritten(x.f[i].v) {
				return true
			}
		}
	case *ArrayV:
		for i := range x.c {
			if _, ok := p.W[&x.c[i]]; ok || p.anyLeafWritten(x.c[i].v) {
				return true
			}
		}
	}
	return false
}

func (p *poState) read(c *Cell, t types.Type, atom bool) Value {
	m := p.m
	if _, ok := p.W[c]; !ok {
		v := m.get(c, t)
		switch v.(type) {
		case *StructV, *ArrayV:
			if p.anyLeafWritten(v) {
				m.unsupported("aggregate read of concurrently written memory")
			}
			return m.copyVal(v)
		}
		if atom {
			p.ev(&poEvent{kind: 'n', atomic: true, op: "load"})
		}
		return v
	}
	if !mergeable(t) {
		m.unsupported("concurrently written non-scalar " + t.String())
	}
	z := m.zero(t).(*Term)
	rv := p.freshRead(z.w)
	p.ev(&poEvent{kind: 'r', locs: []loc{{c, m.c.T}}, rv: rv, atomic: atom, op: "load"})
	return rv
}

func (p *poState) write(c *Cell, v Value, atom bool) {
	t, ok := v.(*Term)
	if !ok {
		switch v.(type) {
		case *StructV, *ArrayV, nil:
			p.m.unsupported("aggregate write to shared memory in a concurrent section")
		}
		p.m.unsupported(fmt.Sprintf("write of %T to shared memory in a concurrent section", v))
	}
	p.addW(c, nil, t)
	p.ev(&poEvent{kind: 'w', locs: []loc{{c, p.m.c.T}}, wv: t, atomic: atom, op: "store"})
}

func (p *poState) symLocs(s *SymPtr, t types.Type) []loc {
	m := p.m
	var ls []loc
	if !termUses(s.idx, p.rvs, map[*Term]bool{}) {
		// the address does not depend on shared memory: one path per value
		k := m.concretize(s.idx)
		return []loc{{m.symTargets(s, t)[k], m.c.T}}
	}
	for i, c := range m.symTargets(s, t) {
		ls = append(ls, loc{c, m.c.Eq(s.idx, m.c.BV(uint64(i), s.idx.w))})
	}
	return ls
}

func (p *poState) readSym(s *SymPtr, t types.Type) (Value, bool) {
	if s.base[0].owner != 0 {
		return nil, false
	}
	ls := p.symLocs(s, t)
	inW := false
	for _, l := range ls {
		if _, ok := p.W[l.c]; ok {
			inW = true
		}
	}
	if !inW {
		return nil, false
	}
	z := p.m.zero(t).(*Term)
	rv := p.freshRead(z.w)
	p.ev(&poEvent{kind: 'r', locs: ls, rv: rv, op: "load"})
	return rv, true
}

func (p *poState) writeSym(s *SymPtr, v Value) bool {
	if s.base[0].owner != 0 {
		return false
	}
	t, ok := v.(*Term)
	if !ok {
		p.m.unsupported("symbolic-address write of non-scalar")
	}
	ls := p.symLocs(s, nil)
	for _, l := range ls {
		p.addW(l.c, nil, t)
	}
	p.ev(&poEvent{kind: 'w', locs: ls, wv: t, op: "store"})
	return true
}

func (p *poState) rmwLocs(ls []loc, t types.Type, f func(*Term) (*Term, Value)) Value {
	z := p.m.zero(t).(*Term)
	rv := p.freshRead(z.w)
	e := p.ev(&poEvent{kind: 'm', locs: ls, rv: rv, atomic: true, op: "rmw"})
	nw, ret := f(rv)
	if nw != nil {
		for _, l := range ls {
			p.addW(l.c, t, nil)
		}
		e.wv = nw
	} else {
		e.kind = 'r' // failed CAS
		p.fails++
		if p.fails > p.m.opts.Retries {
			panic(pathEnd{endLimit, "CAS retries"})
		}
	}
	return ret
}

func (p *poState) rmw(c *Cell, t types.Type, f func(*Term) (*Term, Value)) Value {
	return p.rmwLocs([]loc{{c, p.m.c.T}}, t, f)
}

func (p *poState) atomicSym(op string, t types.Type, s *SymPtr, a []Value) (Value, bool) {
	if s.base[0].owner != 0 {
		return nil, false
	}
	m := p.m
	switch op {
	case "Load":
		v, ok := p.readSym(s, t)
		if ok {
			p.evs[len(p.evs)-1].atomic = true
		} else {
			p.ev(&poEvent{kind: 'n', atomic: true, op: "load"})
		}
		return v, ok
	case "Store":
		if !p.writeSym(s, a[0]) {
			return nil, false
		}
		p.evs[len(p.evs)-1].atomic = true
		return TupleV{}, true
	case "Add":
		return p.rmwLocs(p.symLocs(s, t), t, func(old *Term) (*Term, Value) {
			n := m.c.Bin(OAdd, old, a[0].(*Term))
			return n, n
		}), true
	case "Swap":
		return p.rmwLocs(p.symLocs(s, t), t, func(old *Term) (*Term, Value) { return a[0].(*Term), old }), true
	}
	return nil, false
}

func (p *poState) lock(c *Cell, kind string) {
	if c == nil {
		p.m.goPanic("nil mutex")
	}
	k := byte('L')
	if kind == "Unlock" || kind == "RUnlock" {
		k = 'U'
	}
	p.ev(&poEvent{kind: k, lock: c, rlock: kind[0] == 'R', atomic: true, op: kind})
}

// enumerate explores all paths of one thread from the set-up state.
func (p *poState) enumerate(tid int, body func()) []*poPath {
	m := p.m
	var out []*poPath
	q := [][]Entry{nil}
	svTrace, svPos, svPC, svKnown, svCur, svOwner, svTick, svFresh, svNow := m.trace, m.pos, m.pc, m.known, m.cur, m.curOwner, m.tickLeft, m.fresh, m.lastNow
	svInputs := m.inputs
	svLocal := m.localQ
	svSubst := m.subst
	defer func() { m.subst = svSubst }()
	th := &Thread{id: 1000 + tid, name: fmt.Sprintf("po%d", tid), owner: int32(tid)}
	for len(q) > 0 {
		pre := q[len(q)-1]
		q = q[:len(q)-1]
		m.localQ = &q
		m.trace, m.pos = append([]Entry{}, pre...), 0
		m.pc = append([]*Term{}, svPC...)
		m.subst = maps.Clone(svSubst)
		m.known = map[int32]bool{}
		for k := range svKnown {
			m.known[k] = true
		}
		m.fresh = map[string]int{}
		for k, v := range svFresh {
			m.fresh[k] = v
		}
		m.threadTag = fmt.Sprintf("@t%d", tid)
		m.tickLeft, m.lastNow = svTick, svNow
		m.inputs = append([]Input{}, svInputs...)
		p.evs, p.obls, p.nread, p.fails, p.tid = nil, nil, 0, 0, tid
		m.cur, m.curOwner = th, int32(tid)
		th.top = nil
		p.running = true
		keep := true
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case poBlocked:
				case targetPanic:
					p.obls = append(p.obls, poObl{m.c.F, "panic: " + r.msg})
				case pathEnd:
					switch r.kind {
					case endAssume:
						keep = false
					case endLimit:
						keep = false
						m.W.X.note("PO thread path cut: " + r.msg)
					default:
						p.running = false
						panic(r)
					}
				default:
					p.running = false
					panic(r)
				}
			}()
			body()
		}()
		p.running = false
		if keep {
			out = append(out, &poPath{facts: append([]*Term{}, m.pc[len(svPC):]...), evs: p.evs, obls: p.obls})
			p.threadInputs = append(p.threadInputs, m.inputs[len(svInputs):]...)
		}
		if len(out) > 400 {
			m.unsupported("too many thread paths")
		}
	}
	m.trace, m.pos, m.pc, m.known, m.cur, m.curOwner, m.tickLeft, m.fresh, m.lastNow = svTrace, svPos, svPC, svKnown, svCur, svOwner, svTick, svFresh, svNow
	m.inputs = svInputs
	m.localQ = svLocal
	m.threadTag = ""
	return out
}

func (m *Machine) concurrent(fr *Frame, post Value, fs SliceV) {
	m.usedPO = true
	m.gomaxprocs()
	ft := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	p := &poState{m: m, W: map[*Cell]types.Type{}, rvs: map[*Term]bool{}}
	m.po = p
	var bodies []func()
	for i := range fs.c {
		f := m.loadCell(&fs.c[i], ft)
		bodies = append(bodies, func() { m.callValue(nil, f, nil) })
	}
	for _, t := range m.poPending {
		bodies = append(bodies, t.body)
	}
	var paths [][]*poPath
	for round := 0; ; round++ {
		if round > 8 {
			m.unsupported("PO written set does not stabilise")
		}
		p.grew = false
		p.threadInputs = nil
		paths = nil
		for i, b := range bodies {
			paths = append(paths, p.enumerate(i+1, b))
		}
		if !p.grew {
			break
		}
	}
	seen := map[*Term]bool{}
	for _, in := range p.threadInputs {
		if !seen[in.T] {
			seen[in.T] = true
			m.inputs = append(m.inputs, in)
		}
	}
	type unit struct {
		combo []*poPath
		cube  []poCube
	}
	total := 1
	for _, ps := range paths {
		total *= len(ps)
	}
	if total == 0 {
		panic(pathEnd{endAssume, ""})
	}
	if total > 20000 {
		m.unsupported(fmt.Sprintf("too many path combinations (%d)", total))
	}
	m.initPO(p, paths)
	var units []unit
	for k := 0; k < total; k++ {
		combo := make([]*poPath, len(paths))
		x := k
		for i, ps := range paths {
			combo[i] = ps[x%len(ps)]
			x /= len(ps)
		}
		for _, cb := range m.cubes(combo) {
			units = append(units, unit{combo, cb})
		}
		if len(units) > 200000 {
			m.unsupported("too many schedule cubes")
		}
	}
	parts := min(8, (len(units)+1)/2)
	part := m.choose(parts)
	base := m.pc
	baseKnown := m.known
	baseSubst := m.subst
	feasible := false
	for k := part; k < len(units); k += parts {
		m.subst = maps.Clone(baseSubst)
		p.chosen = units[k].combo
		m.runCombo(fr, p, units[k].combo, units[k].cube, base, baseKnown, post, &feasible)
		if m.W.X.stopped() {
			break
		}
	}
	m.pc, m.known, m.subst = base, baseKnown, baseSubst
	m.po = nil
	if !feasible {
		panic(pathEnd{endAssume, ""})
	}
	// the code after the concurrent section is not executed symbolically: asserts belong in post
	panic(pathEnd{endNormal, ""})
}

// a cube fixes the relative order of two events
type poCube struct{ a, b *poEvent }

type poCS struct{ l, u *poEvent }

func critSections(combo []*poPath) (css []poCS, selfDead bool) {
	for _, path := range combo {
		open := map[*Cell]*poEvent{}
		for _, e := range path.evs {
			switch e.kind {
			case 'L':
				if open[e.lock] != nil && !(e.rlock && open[e.lock].rlock) {
					selfDead = true
				}
				open[e.lock] = e
			case 'U':
				if o := open[e.lock]; o != nil {
					css = append(css, poCS{o, e})
					delete(open, e.lock)
				}
			}
		}
		for _, e := range path.evs {
			if e.kind == 'L' && open[e.lock] == e {
				css = append(css, poCS{e, nil})
			}
		}
	}
	return
}

func (m *Machine) initPO(p *poState, paths [][]*poPath) {
	for _, ps := range paths {
		for _, path := range ps {
			for k, e := range path.evs {
				e.seq = k
			}
		}
	}
}

func termUses(t *Term, set map[*Term]bool, memo map[*Term]bool) bool {
	if t == nil || t.op == OConst {
		return false
	}
	if set[t] {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := termUses(t.a, set, memo) || termUses(t.b, set, memo) || termUses(t.c, set, memo)
	memo[t] = r
	return r
}

// cubes splits the schedule space of a path combination by the order of conflicting critical
// sections and of the read-modify-writes that feed symbolic addresses. The cubes are jointly
// exhaustive; everything they leave open stays symbolic.
func (m *Machine) cubes(combo []*poPath) [][]poCube {
	css, _ := critSections(combo)
	type item struct{ first, last *poEvent }
	groups := map[interface{}][]item{}
	var keys []interface{}
	addIt := func(k interface{}, it item) {
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], it)
	}
	for _, c := range css {
		if c.l.rlock {
			continue
		}
		addIt(c.l.lock, item{c.l, c.u})
	}
	// index counters
	idxVars := map[*Term]bool{}
	for _, p := range combo {
		for _, e := range p.evs {
			if e.kind == 'm' && len(e.locs) == 1 {
				idxVars[e.rv] = true
			}
		}
	}
	used := map[*Term]bool{}
	for _, p := range combo {
		for _, e := range p.evs {
			if len(e.locs) > 1 {
				for v := range idxVars {
					if termUses(e.locs[0].cond, map[*Term]bool{v: true}, map[*Term]bool{}) {
						used[v] = true
					}
				}
			}
		}
	}
	cells := map[*Cell]bool{}
	for _, p := range combo {
		for _, e := range p.evs {
			if e.kind == 'm' && used[e.rv] {
				cells[e.locs[0].c] = true
			}
		}
	}
	for _, p := range combo {
		for _, e := range p.evs {
			if e.kind == 'm' && len(e.locs) == 1 && cells[e.locs[0].c] {
				addIt(e.locs[0].c, item{e, e})
			}
		}
	}
	res := [][]poCube{nil}
	for _, k := range keys {
		its := groups[k]
		if len(its) > 6 {
			continue
		}
		var orders [][]poCube
		usedIt := make([]bool, len(its))
		var cur []int
		var rec func()
		rec = func() {
			if len(cur) == len(its) {
				var cb []poCube
				for i := 0; i+1 < len(cur); i++ {
					a, b := its[cur[i]], its[cur[i+1]]
					if a.last == nil {
						return // a section that never ends cannot be followed
					}
					cb = append(cb, poCube{a.last, b.first})
				}
				orders = append(orders, cb)
				return
			}
			for i := range its {
				if usedIt[i] {
					continue
				}
				// program order
				ok := true
				for j := range its {
					if !usedIt[j] && j != i && its[j].first.thread == its[i].first.thread && its[j].first.seq < its[i].first.seq {
						ok = false
					}
				}
				if !ok {
					continue
				}
				usedIt[i] = true
				cur = append(cur, i)
				rec()
				cur = cur[:len(cur)-1]
				usedIt[i] = false
			}
		}
		rec()
		var nr [][]poCube
		for _, r := range res {
			for _, o := range orders {
				nr = append(nr, append(append([]poCube{}, r...), o...))
			}
		}
		res = nr
		if len(res) > 5000 {
			break
		}
	}
	return res
}

func (c *TermCtx) subst(t *Term, sub map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil || t.op == OConst {
		return t
	}
	if r, ok := sub[t]; ok {
		return r
	}
	if t.op == OVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	a, b, d := c.subst(t.a, sub, memo), c.subst(t.b, sub, memo), c.subst(t.c, sub, memo)
	r := t
	if a != t.a || b != t.b || d != t.c {
		switch t.op {
		case ONot:
			r = c.Not(a)
		case OAnd:
			r = c.And(a, b)
		case OOr:
			r = c.Or(a, b)
		case OIte:
			r = c.Ite(a, b, d)
		case OEq:
			r = c.Eq(a, b)
		case ONeg:
			r = c.Neg(a)
		case OBNot:
			r = c.BNot(a)
		case OUlt, OUle, OSlt, OSle:
			r = c.Cmp(t.op, a, b)
		case OConcat:
			r = c.Concat(a, b)
		case OExtract:
			r = c.Extract(a, uint8(t.val>>8), uint8(t.val&0xff))
		case OZext:
			r = c.Zext(a, t.w)
		case OSext:
			r = c.Sext(a, t.w)
		default:
			r = c.Bin(t.op, a, b)
		}
	}
	memo[t] = r
	return r
}

type poUndecided struct{}

// runCombo decides one cube. A query the solver does not settle quickly is split on the order of
// a pair of conflicting events; with every relevant pair ordered the query is plain arithmetic.
func (m *Machine) runCombo(fr *Frame, p *poState, combo []*poPath, cube []poCube, base []*Term, baseKnown map[int32]bool, post Value, feasible *bool) {
	if m.W.X.stopped() {
		return
	}
	atomic.AddInt64(&m.W.X.POQueries, 1)
	split := m.runCube(fr, p, combo, cube, base, baseKnown, post, feasible, true)
	if split == nil {
		return
	}
	if split.a == nil {
		m.runCube(fr, p, combo, cube, base, baseKnown, post, feasible, false)
		return
	}
	c1 := append(append([]poCube{}, cube...), *split)
	c2 := append(append([]poCube{}, cube...), poCube{split.b, split.a})
	m.runCombo(fr, p, combo, c1, base, baseKnown, post, feasible)
	m.runCombo(fr, p, combo, c2, base, baseKnown, post, feasible)
}

func (m *Machine) runCube(fr *Frame, p *poState, combo []*poPath, cube []poCube, base []*Term, baseKnown map[int32]bool, post Value, feasible *bool, quick bool) (split *poCube) {
	c := m.c
	pairs := map[[2]int]int{}
	var evs []*poEvent
	idx := map[*poEvent]int{}
	for _, path := range combo {
		for _, e := range path.evs {
			e.clk = nil
			if e.kind != 'n' {
				idx[e] = len(evs)
				evs = append(evs, e)
			}
		}
	}
	n := len(evs)
	// known order: program order, cube, closure
	words := (n + 63) / 64
	ord := make([][]uint64, n)
	for i := range ord {
		ord[i] = make([]uint64, words)
	}
	setO := func(i, j int) { ord[i][j/64] |= 1 << (j % 64) }
	has := func(i, j int) bool { return ord[i][j/64]>>(j%64)&1 == 1 }
	for i := 0; i+1 < n; i++ {
		if evs[i].thread == evs[i+1].thread {
			setO(i, i+1)
		}
	}
	for _, cb := range cube {
		setO(idx[cb.a], idx[cb.b])
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if has(i, k) {
				for w := 0; w < words; w++ {
					ord[i][w] |= ord[k][w]
				}
			}
		}
	}
	npred := make([]int, n)
	for i := 0; i < n; i++ {
		if has(i, i) {
			return nil // cyclic: impossible cube
		}
		for j := 0; j < n; j++ {
			if has(i, j) {
				npred[j]++
			}
		}
	}
	topo := make([]int, n)
	for i := range topo {
		topo[i] = i
	}
	sort.SliceStable(topo, func(a, b int) bool { return npred[topo[a]] < npred[topo[b]] })
	for k, i := range topo {
		evs[i].tpos = k
	}
	clkUsed := false
	cw := uint8(8)
	if n > 250 {
		cw = 10
	}
	{
		cnt := map[int]int{}
		for _, e := range evs {
			t := c.Var(fmt.Sprintf("clk.t%d.%d", e.thread, cnt[e.thread]), cw)
			cnt[e.thread]++
			e.clk = c.Concat(t, c.BV(uint64(e.thread), 4))
		}
	}
	before := func(a, b *poEvent) *Term {
		i, j := idx[a], idx[b]
		if has(i, j) {
			return c.T
		}
		if has(j, i) || i == j {
			return c.F
		}
		clkUsed = true
		if i < j {
			pairs[[2]int{i, j}]++
		} else {
			pairs[[2]int{j, i}]++
		}
		return c.Cmp(OUlt, a.clk, b.clk)
	}
	css, selfDead := critSections(combo)
	if selfDead {
		return nil
	}
	var facts []*Term
	add := func(t *Term) {
		if !t.isTrue() {
			facts = append(facts, t)
		}
	}
	for i := range css {
		for j := i + 1; j < len(css); j++ {
			a, b := css[i], css[j]
			if a.l.lock != b.l.lock || a.l.thread == b.l.thread || (a.l.rlock && b.l.rlock) {
				continue
			}
			o := c.F
			if a.u != nil {
				o = c.Or(o, before(a.u, b.l))
			}
			if b.u != nil {
				o = c.Or(o, before(b.u, a.l))
			}
			add(o)
		}
	}
	sub := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	dirty := false
	S := func(t *Term) *Term {
		if len(sub) == 0 {
			return t
		}
		if dirty {
			memo = map[*Term]*Term{}
			dirty = false
		}
		return c.subst(t, sub, memo)
	}
	writes := map[*Cell][]*poEvent{}
	for _, e := range evs {
		if e.wv != nil {
			for _, l := range e.locs {
				writes[l.c] = append(writes[l.c], e)
			}
		}
	}
	initVal := func(locs []loc, w uint8) *Term {
		var acc *Term
		for i := len(locs) - 1; i >= 0; i-- {
			l := locs[i]
			v := m.get(l.c, p.typeOf(l.c, w)).(*Term)
			if acc == nil {
				acc = v
			} else {
				acc = c.Ite(S(l.cond), v, acc)
			}
		}
		return acc
	}
	// value seen by a read at e (nil: at the end). Returns the value if the known order
	// determines it; otherwise emits constraints over rv.
	resolve := func(rv *Term, w uint8, e *poEvent, locs []loc, mkVar func() *Term) *Term {
		type cd struct {
			w  *poEvent
			al *Term
			v  *Term // visible: before ∧ alias
		}
		var cand []cd
		seen := map[*poEvent]bool{}
		for _, l := range locs {
			for _, wr := range writes[l.c] {
				if wr == e || seen[wr] {
					continue
				}
				seen[wr] = true
				al := c.F
				for _, x := range wr.locs {
					for _, y := range locs {
						if x.c == y.c {
							al = c.Or(al, c.And(S(x.cond), S(y.cond)))
						}
					}
				}
				if al.isFalse() {
					continue
				}
				if e != nil && has(idx[e], idx[wr]) {
					continue
				}
				cand = append(cand, cd{w: wr, al: al})
			}
		}
		known := func(a *poEvent) bool { return e == nil || has(idx[a], idx[e]) }
		// drop writes certainly overwritten before the read
		kept := cand[:0:0]
		for _, x := range cand {
			over := false
			for _, y := range cand {
				if y.w != x.w && y.al.isTrue() && known(y.w) && has(idx[x.w], idx[y.w]) {
					over = true
					break
				}
			}
			if !over {
				kept = append(kept, x)
			}
		}
		cand = kept
		if len(cand) == 0 {
			return initVal(locs, w)
		}
		if len(cand) == 1 && known(cand[0].w) {
			if cand[0].al.isTrue() {
				return S(cand[0].w.wv)
			}
			return c.Ite(cand[0].al, S(cand[0].w.wv), initVal(locs, w))
		}
		// totally ordered and all known before: nested ite
		tot := true
		for i := range cand {
			if !known(cand[i].w) {
				tot = false
			}
			for j := range cand {
				if i != j && !has(idx[cand[i].w], idx[cand[j].w]) && !has(idx[cand[j].w], idx[cand[i].w]) {
					tot = false
				}
			}
		}
		if tot {
			sort.Slice(cand, func(i, j int) bool { return has(idx[cand[i].w], idx[cand[j].w]) })
			acc := initVal(locs, w)
			for _, x := range cand {
				acc = c.Ite(x.al, S(x.w.wv), acc)
			}
			return acc
		}
		if rv == nil {
			rv = mkVar()
		}
		bef := func(x *poEvent) *Term {
			if e == nil {
				return c.T
			}
			return before(x, e)
		}
		for i := range cand {
			cand[i].v = c.And(bef(cand[i].w), cand[i].al)
		}
		sels := c.F
		none := c.T
		for i, x := range cand {
			none = c.And(none, c.Not(x.v))
			s := c.And(x.v, c.Eq(rv, S(x.w.wv)))
			for j, y := range cand {
				if i != j && !s.isFalse() {
					s = c.And(s, c.Or(c.Not(y.v), before(y.w, x.w)))
				}
			}
			sels = c.Or(sels, s)
		}
		if !none.isFalse() {
			sels = c.Or(sels, c.And(none, c.Eq(rv, initVal(locs, w))))
		}
		add(sels)
		return nil
	}
	for _, i := range topo {
		e := evs[i]
		if e.rv == nil {
			continue
		}
		if v := resolve(e.rv, e.rv.w, e, e.locs, nil); v != nil && v != e.rv {
			sub[e.rv] = v
			dirty = true
		}
	}
	dirty = true
	for _, path := range combo {
		for _, f := range path.facts {
			t := S(f)
			if t.isFalse() {
				return nil
			}
			add(t)
		}
	}
	type sv struct {
		c *Cell
		v Value
	}
	var saved []sv
	for k, cell := range p.Wlist {
		ws := writes[cell]
		if len(ws) == 0 {
			continue
		}
		var fv *Term
		w := ws[0].wv.w
		if v := resolve(nil, w, nil, []loc{{cell, c.T}}, func() *Term { fv = c.Var(fmt.Sprintf("fin.%d", k), w); return fv }); v != nil {
			fv = v
		}
		saved = append(saved, sv{cell, cell.v})
		cell.v = fv
	}
	if clkUsed {
		for i := 0; i+1 < n; i++ {
			if evs[i].thread == evs[i+1].thread {
				facts = append(facts, c.Cmp(OUlt, evs[i].clk, evs[i+1].clk))
			}
		}
		for _, cb := range cube {
			facts = append(facts, c.Cmp(OUlt, cb.a.clk, cb.b.clk))
		}
	}
	p.clkUsed = clkUsed
	atomic.AddInt64(&m.W.X.Events, int64(n))
	svTrace, svPos, svInputs := m.trace, m.pos, m.inputs
	dead := false
	undecided := false
	if quick {
		m.s.quick = 1500
	}
	defer func() { m.s.quick = 0 }()
	all := c.T
	for _, f := range facts {
		t := f
		if clkUsed || len(sub) > 0 {
			t = S(f)
		}
		all = c.And(all, t)
	}
	if all.isFalse() {
		dead = true
	}
	if !dead {
		pc0 := append([]*Term{}, base...)
		if !all.isTrue() {
			pc0 = append(pc0, all)
		}
		if !*feasible {
			r, _ := m.s.Check(pc0, nil, false)
			if r == IsSat {
				*feasible = true
			} else if r == IsUnsat {
				dead = true
			}
		}
		if !dead {
			q := [][]Entry{nil}
			svLocal := m.localQ
			subst0 := m.subst
			for len(q) > 0 && !undecided {
				pre := q[len(q)-1]
				q = q[:len(q)-1]
				m.localQ = &q
				m.trace, m.pos = append([]Entry{}, pre...), 0
				m.pc = append([]*Term{}, pc0...)
				m.subst = maps.Clone(subst0)
				m.known = map[int32]bool{}
				for k := range baseKnown {
					m.known[k] = true
				}
				m.nUndo = true
				m.undo = nil
				func() {
					defer func() {
						switch r := recover().(type) {
						case nil:
						case pathEnd:
							switch r.kind {
							case endAssume, endViolation, endNormal:
							default:
								panic(r)
							}
						case poUndecided:
							undecided = true
						case targetPanic:
							m.violation("panic: "+r.msg, nil)
						default:
							panic(r)
						}
					}()
					for _, path := range combo {
						for _, o := range path.obls {
							m.assert(S(o.cond), o.msg)
						}
					}
					m.callValue(fr.caller, post, nil)
				}()
				for i := len(m.undo) - 1; i >= 0; i-- {
					m.undo[i].c.v = m.undo[i].v
				}
				m.nUndo = false
			}
			m.localQ = svLocal
		}
	}
	m.trace, m.pos, m.inputs = svTrace, svPos, svInputs
	for _, s := range saved {
		s.c.v = s.v
	}
	if !undecided {
		return nil
	}
	best := &poCube{}
	bn := 0
	for pr, k := range pairs {
		if k > bn || k == bn && best.a != nil && (pr[0] < idx[best.a] || pr[0] == idx[best.a] && pr[1] < idx[best.b]) {
			best, bn = &poCube{evs[pr[0]], evs[pr[1]]}, k
		}
	}
	return best
}

func (p *poState) typeOf(c *Cell, w uint8) types.Type {
	if t := p.W[c]; t != nil {
		return t
	}
	return basicFor(p.m.c.Var("w", w))
}

// schedule lists the gated (atomic and lock) operations in the order of a model.
func (p *poState) schedule(model map[string]uint64) []SchedStep {
	type it struct {
		clk uint64
		t   int
		k   int
		op  string
	}
	var its []it
	memo := map[*Term]uint64{}
	for ti, path := range p.chosen {
		last := uint64(0)
		for k, e := range path.evs {
			if !e.atomic {
				continue
			}
			x := it{t: ti + 1, k: k, op: e.op}
			if e.kind == 'n' {
				x.clk = last
			} else if p.clkUsed {
				x.clk = e.clk.eval(model, memo)
			} else {
				x.clk = uint64(e.tpos)
			}
			last = x.clk
			its = append(its, x)
		}
	}
	sort.SliceStable(its, func(i, j int) bool {
		if its[i].clk != its[j].clk {
			return its[i].clk < its[j].clk
		}
		if its[i].t != its[j].t {
			return its[i].t < its[j].t
		}
		return its[i].k < its[j].k
	})
	var r []SchedStep
	for _, x := range its {
		r = append(r, SchedStep{Thread: x.t, Op: x.op})
	}
	return r
}
