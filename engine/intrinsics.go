package main

// Built-in models of runtime / standard-library functions. Everything not listed is
// executed from its SSA.

import (
	"fmt"
	"go/types"
	"math"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type natFn func(fr *Frame, a []Value) Value

var intrinsics map[string]natFn

func engineStack() string { return string(debug.Stack()) }

func isIntrinsicName(n string) bool {
	if intrinsics[n] != nil {
		return true
	}
	return strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") || strings.Contains(n, "/zzverif/rt.") ||
		strings.HasSuffix(n, ".runtime_procPin") || strings.HasSuffix(n, ".runtime_procUnpin")
}

func (m *Machine) intrinsic(fn *ssa.Function) natFn {
	if fn.Synthetic != "" && fn.Pkg == nil && fn.Origin() == nil {
		return nil
	}
	n := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		n = o.String()
	}
	if f := intrinsics[n]; f != nil {
		return f
	}
	if strings.HasPrefix(n, "(*sync/atomic.") {
		return m.atomicMethod(fn, n)
	}
	if strings.HasPrefix(n, "sync/atomic.") && fn.Name() != "init" {
		return m.atomicFunc(fn)
	}
	if i := strings.Index(n, "/zzverif/rt."); i >= 0 {
		return rtFns[n[i+len("/zzverif/rt."):]]
	}
	if fn.Blocks == nil {
		switch fn.Name() {
		case "runtime_procPin":
			return func(fr *Frame, a []Value) Value {
				m := fr.m
				p := m.newVar("procpin", 64, true, true)
				m.assume(m.c.Cmp(OUlt, p, m.gomaxprocs()))
				return p
			}
		case "runtime_procUnpin":
			return func(fr *Frame, a []Value) Value { return TupleV{} }
		}
	}
	return nil
}

func (m *Machine) gomaxprocs() *Term {
	if m.gmaxp == nil {
		m.gmaxp = m.newVar("gomaxprocs", 64, true, true)
		m.assume(m.c.And(m.c.Cmp(OSle, m.constInt(1), m.gmaxp), m.c.Cmp(OSle, m.gmaxp, m.constInt(256))))
	}
	return m.gmaxp
}

// ---- sync/atomic ----

func (m *Machine) rmw(c *Cell, t types.Type, f func(old *Term) (nw *Term, ret Value)) Value {
	if m.po != nil && m.po.active() && c.owner == 0 {
		return m.po.rmw(c, t, f)
	}
	m.yieldPoint(true, c)
	m.hbAtomic(c)
	old := m.get(c, t).(*Term)
	nw, ret := f(old)
	if nw != nil {
		m.logUndo(c)
		c.v = nw
	}
	return ret
}

func (m *Machine) atomicLoad(c *Cell, t types.Type) Value {
	if m.po != nil && m.po.active() && c.owner == 0 {
		return m.po.read(c, t, true)
	}
	m.yieldPoint(false, c)
	m.hbAtomic(c)
	return m.get(c, t)
}

func (m *Machine) atomicStore(c *Cell, v Value) {
	if m.po != nil && m.po.active() && c.owner == 0 {
		m.po.write(c, v, true)
		return
	}
	m.yieldPoint(true, c)
	m.hbAtomic(c)
	m.logUndo(c)
	c.v = v
}

func (m *Machine) hbAtomic(c *Cell) {
	if !m.raceOn {
		return
	}
	vc, _ := m.native[c].(*[]int)
	if vc == nil {
		vc = &[]int{}
		m.native[c] = vc
	}
	m.hbRelAcq(vc)
}

func (m *Machine) atomicOp(op string, t types.Type, ptr Value, a []Value) Value {
	if sp, ok := ptr.(*SymPtr); ok {
		if m.po != nil && m.po.active() {
			if r, ok := m.po.atomicSym(op, t, sp, a); ok {
				return r
			}
		}
		// apply to every candidate under the index condition (single-threaded use only)
		if !m.alone() {
			cells := m.symTargets(sp, t)
			return m.atomicOp(op, t, cells[m.concretize(sp.idx)], a)
		}
		old := m.loadSym(sp, t)
		ot, isT := old.(*Term)
		if !isT {
			m.unsupported("atomic op via symbolic pointer")
		}
		switch op {
		case "Load":
			return old
		case "Store":
			m.store(sp, a[0])
			return TupleV{}
		case "Add":
			n := m.c.Bin(OAdd, ot, a[0].(*Term))
			m.store(sp, n)
			return n
		case "Swap":
			m.store(sp, a[0])
			return old
		}
		cells := m.symTargets(sp, t)
		return m.atomicOp(op, t, cells[m.concretize(sp.idx)], a)
	}
	c, ok := ptr.(*Cell)
	if !ok {
		m.unsupported(fmt.Sprintf("atomic on %T", ptr))
	}
	if c == nil {
		m.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	switch op {
	case "Load":
		return m.atomicLoad(c, t)
	case "Store":
		m.atomicStore(c, a[0])
		return TupleV{}
	}
	if !mergeable(t) { // pointers, interfaces
		if m.po != nil && m.po.active() && c.owner == 0 {
			m.unsupported("atomic pointer RMW in PO mode")
		}
		m.yieldPoint(true, c)
		m.hbAtomic(c)
		old := m.get(c, t)
		switch op {
		case "Swap":
			m.logUndo(c)
			c.v = a[0]
			return old
		case "CompareAndSwap":
			if m.branch(m.eq(t, old, a[0])) {
				m.logUndo(c)
				c.v = a[1]
				return m.c.T
			}
			return m.c.F
		}
		m.unsupported("atomic " + op)
	}
	return m.rmw(c, t, func(old *Term) (*Term, Value) {
		switch op {
		case "Add":
			n := m.c.Bin(OAdd, old, a[0].(*Term))
			return n, n
		case "Swap":
			return a[0].(*Term), old
		case "And":
			return m.c.Bin(OBAnd, old, a[0].(*Term)), old
		case "Or":
			return m.c.Bin(OBOr, old, a[0].(*Term)), old
		case "CompareAndSwap":
			e := m.c.Eq(old, a[0].(*Term))
			if m.branch(e) {
				return a[1].(*Term), m.c.T
			}
			return nil, m.c.F
		}
		m.unsupported("atomic " + op)
		return nil, nil
	})
}

// atomicMethod handles methods of sync/atomic's types; the value field is called "v".
func (m *Machine) atomicMethod(fn *ssa.Function, name string) natFn {
	op := fn.Name()
	rt := deref(fn.Signature.Recv().Type())
	st, ok := under(rt).(*types.Struct)
	if !ok {
		return nil
	}
	fi := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "v" {
			fi = i
		}
	}
	if fi < 0 {
		return nil
	}
	ft := st.Field(fi).Type()
	isBoolT := strings.HasPrefix(name, "(*sync/atomic.Bool)")
	isPtr := strings.HasPrefix(name, "(*sync/atomic.Pointer[")
	isVal := strings.HasPrefix(name, "(*sync/atomic.Value)")
	return func(fr *Frame, a []Value) Value {
		m := fr.m
		p := m.fieldAddr(a[0], fi, rt)
		args := a[1:]
		if isBoolT {
			b2i := func(v Value) Value { return m.c.Ite(v.(*Term), m.c.BV(1, 32), m.c.BV(0, 32)) }
			na := make([]Value, len(args))
			for i := range args {
				na[i] = b2i(args[i])
			}
			r := m.atomicOp(op, ft, p, na)
			if op == "Load" || op == "Swap" {
				return m.c.Not(m.c.Eq(r.(*Term), m.c.BV(0, 32)))
			}
			return r
		}
		if isPtr {
			pt := types.NewPointer(types.Typ[types.Int]) // representation: the pointer itself
			_ = pt
			na := make([]Value, len(args))
			copy(na, args)
			t := types.Type(types.NewPointer(types.NewStruct(nil, nil)))
			return m.atomicOp(op, t, p, na)
		}
		if isVal {
			return m.atomicOp(op, ft, p, args)
		}
		return m.atomicOp(op, ft, p, args)
	}
}

func (m *Machine) atomicFunc(fn *ssa.Function) natFn {
	n := fn.Name()
	for _, op := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add", "And", "Or"} {
		if strings.HasPrefix(n, op) {
			pt := fn.Signature.Params().At(0).Type()
			et := deref(pt)
			return func(fr *Frame, a []Value) Value { return fr.m.atomicOp(op, et, a[0], a[1:]) }
		}
	}
	return nil
}

// ---- sync ----

type mutexSt struct {
	locked  bool
	readers int
	owner   int
	vc      []int
}

func (m *Machine) mu(p Value) *mutexSt {
	c, ok := p.(*Cell)
	if !ok || c == nil {
		m.goPanic("nil mutex")
	}
	s, _ := m.native[c].(*mutexSt)
	if s == nil {
		s = &mutexSt{}
		m.native[c] = s
	}
	return s
}

type onceSt struct {
	state int // 0,1 running,2 done
	vc    []int
}

type wgSt struct {
	n  int
	vc []int
}

type syncMapSt struct {
	mv *MapV
	vc []int
}

type poolSt struct {
	items []Value
	vc    []int
}

type condSt struct {
	wait, notify int
	vc           []int
}

func (m *Machine) condOf(p Value) *condSt {
	if m.po != nil && m.po.active() {
		m.unsupported("sync.Cond in PO mode")
	}
	c := p.(*Cell)
	s, _ := m.native[c].(*condSt)
	if s == nil {
		s = &condSt{}
		m.native[c] = s
	}
	return s
}

var anyT = types.NewInterfaceType(nil, nil)

func (m *Machine) smap(p Value) *syncMapSt {
	c := p.(*Cell)
	if c == nil {
		m.goPanic("nil sync.Map")
	}
	s, _ := m.native[c].(*syncMapSt)
	if s == nil {
		s = &syncMapSt{mv: m.newMap()}
		m.native[c] = s
	}
	return s
}

func (m *Machine) nilErr() Value { return IfaceV{} }

func (m *Machine) lockOp(p Value, kind string) {
	if m.po != nil && m.po.active() {
		m.po.lock(p.(*Cell), kind)
		return
	}
	s := m.mu(p)
	switch kind {
	case "Lock":
		m.yieldPoint(true, s)
		m.blockUntil(func() bool { return !s.locked && s.readers == 0 }, s)
		s.locked = true
		m.hbAcq(&s.vc)
	case "RLock":
		m.yieldPoint(true, s)
		m.blockUntil(func() bool { return !s.locked }, s)
		s.readers++
		m.hbAcq(&s.vc)
	case "Unlock":
		m.yieldPoint(true, s)
		if !s.locked {
			m.goPanic("fatal error: sync: unlock of unlocked mutex")
		}
		m.hbRel(&s.vc)
		s.locked = false
	case "RUnlock":
		m.yieldPoint(true, s)
		if s.readers == 0 {
			m.goPanic("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.hbRel(&s.vc)
		s.readers--
	}
}

func (m *Machine) timeVal(t types.Type, nanos *Term) Value {
	sv := &StructV{f: m.newCells(3)}
	sv.f[0].v = m.c.BV(1, 64)
	sv.f[1].v = nanos
	return sv
}

func (m *Machine) nowTerm() *Term {
	if m.frozen != nil {
		return m.frozen
	}
	if m.clock != 0 {
		m.clock += 1000
		m.lastNow = m.constInt(m.clock)
		return m.lastNow
	}
	v := m.newVar("now", 64, true, true)
	lo := m.constInt(1_600_000_000_000_000_000)
	if m.lastNow != nil {
		lo = m.lastNow
	}
	m.assume(m.c.And(m.c.Cmp(OSle, lo, v), m.c.Cmp(OSle, v, m.constInt(2_000_000_000_000_000_000))))
	m.lastNow = v
	return v
}

func (m *Machine) timeNow(t types.Type) Value { return m.timeVal(t, m.nowTerm()) }

func (m *Machine) nanosOf(v Value) *Term {
	sv := v.(*StructV)
	return m.get(&sv.f[1], types.Typ[types.Int64]).(*Term)
}

// isZeroTime reports (as a term) whether v is the zero time.Time: modelled times carry wall=1.
func (m *Machine) isZeroTime(v Value) *Term {
	w := m.get(&v.(*StructV).f[0], types.Typ[types.Uint64]).(*Term)
	return m.c.Eq(w, m.c.BV(0, 64))
}

// timeSub is a-b, saturating like Time.Sub where one of them is the zero time (year 1).
func (m *Machine) timeSub(a, b *Term, za, zb *Term) *Term {
	d := m.c.Bin(OSub, a, b)
	d = m.c.Ite(m.c.And(zb, m.c.Not(za)), m.constInt(math.MaxInt64), d)
	return m.c.Ite(m.c.And(za, m.c.Not(zb)), m.constInt(math.MinInt64), d)
}

// timeKey is a term ordering times, the zero time before all others.
func (m *Machine) timeKey(v Value) *Term {
	return m.c.Ite(m.isZeroTime(v), m.constInt(math.MinInt64), m.nanosOf(v))
}

func boolV(m *Machine, b bool) Value { return m.c.Bool(b) }

func (m *Machine) pkgType(pkg, name string) types.Type {
	p := m.P.pkgs[pkg]
	if p == nil {
		m.unsupported("package not loaded: " + pkg)
	}
	return p.Type(name).Type()
}

func (m *Machine) newErrString(s *Str) Value {
	t := m.pkgType("errors", "errorString")
	sv := &StructV{f: m.newCells(1)}
	sv.f[0].v = s
	return IfaceV{t: types.NewPointer(t), v: m.newCell(sv)}
}

func (m *Machine) makeTicker(fr *Frame, tn string) Value {
	t := m.pkgType("time", tn)
	st := under(t).(*types.Struct)
	sv := &StructV{f: m.newCells(st.NumFields())}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "C" {
			sv.f[i].v = &ChanV{cap: 1, timer: true, id: m.nextChanID()}
		}
	}
	return m.newCell(sv)
}

func init() {
	nop := func(fr *Frame, a []Value) Value { return TupleV{} }
	intrinsics = map[string]natFn{
		"(*sync.Mutex).Lock":      func(fr *Frame, a []Value) Value { fr.m.lockOp(a[0], "Lock"); return TupleV{} },
		"(*sync.Mutex).Unlock":    func(fr *Frame, a []Value) Value { fr.m.lockOp(a[0], "Unlock"); return TupleV{} },
		"(*sync.RWMutex).Lock":    func(fr *Frame, a []Value) Value { fr.m.lockOp(a[0], "Lock"); return TupleV{} },
		"(*sync.RWMutex).Unlock":  func(fr *Frame, a []Value) Value { fr.m.lockOp(a[0], "Unlock"); return TupleV{} },
		"(*sync.RWMutex).RLock":   func(fr *Frame, a []Value) Value { fr.m.lockOp(a[0], "RLock"); return TupleV{} },
		"(*sync.RWMutex).RUnlock": func(fr *Frame, a []Value) Value { fr.m.lockOp(a[0], "RUnlock"); return TupleV{} },
		"(*sync.Mutex).TryLock": func(fr *Frame, a []Value) Value {
			m := fr.m
			if m.po != nil && m.po.active() {
				m.unsupported("TryLock in PO mode")
			}
			s := m.mu(a[0])
			m.yieldPoint(true, s)
			if s.locked || s.readers > 0 {
				return m.c.F
			}
			s.locked = true
			m.hbAcq(&s.vc)
			return m.c.T
		},
		"(*sync.RWMutex).TryLock": func(fr *Frame, a []Value) Value {
			m := fr.m
			if m.po != nil && m.po.active() {
				m.unsupported("TryLock in PO mode")
			}
			s := m.mu(a[0])
			m.yieldPoint(true, s)
			if s.locked || s.readers > 0 {
				return m.c.F
			}
			s.locked = true
			m.hbAcq(&s.vc)
			return m.c.T
		},
		"(*sync.RWMutex).TryRLock": func(fr *Frame, a []Value) Value {
			m := fr.m
			if m.po != nil && m.po.active() {
				m.unsupported("TryRLock in PO mode")
			}
			s := m.mu(a[0])
			m.yieldPoint(true, s)
			if s.locked {
				return m.c.F
			}
			s.readers++
			m.hbAcq(&s.vc)
			return m.c.T
		},
		"(*sync.Map).Clear": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			for _, e := range append([]*MapEnt{}, s.mv.ents...) {
				if !e.del {
					m.mapDelEnt(s.mv, anyT, e)
				}
			}
			return TupleV{}
		},
		"internal/bytealg.MakeNoZero": func(fr *Frame, a []Value) Value {
			n := fr.m.toInt(a[0])
			if n > 1<<20 {
				panic(pathEnd{endLimit, "huge make"})
			}
			return SliceV{c: fr.m.newCells(n)}
		},
		"slices.overlaps": func(fr *Frame, a []Value) Value {
			x, y := a[0].(SliceV), a[1].(SliceV)
			for i := range x.c {
				for j := range y.c {
					if &x.c[i] == &y.c[j] {
						return fr.m.c.T
					}
				}
			}
			return fr.m.c.F
		},
		"maps.clone": func(fr *Frame, a []Value) Value {
			m := fr.m
			iv := a[0].(IfaceV)
			src, _ := iv.v.(*MapV)
			if src == nil {
				return iv
			}
			if m.raceOn {
				m.raceMap(src, false)
			}
			kt := under(iv.t).(*types.Map).Key()
			dst := m.newMap()
			for _, e := range src.ents {
				if !e.del {
					m.mapSet(dst, kt, e.k, e.c.v)
				}
			}
			return IfaceV{t: iv.t, v: dst}
		},
		"math.Max": func(fr *Frame, a []Value) Value { return math.Max(a[0].(float64), a[1].(float64)) },
		"math.Min": func(fr *Frame, a []Value) Value { return math.Min(a[0].(float64), a[1].(float64)) },
		"math.Ceil":  func(fr *Frame, a []Value) Value { return math.Ceil(a[0].(float64)) },
		"math.Trunc": func(fr *Frame, a []Value) Value { return math.Trunc(a[0].(float64)) },
		"errors.As": func(fr *Frame, a []Value) Value {
			m := fr.m
			tgt := a[1].(IfaceV)
			if tgt.t == nil {
				m.goPanic("errors: target cannot be nil")
			}
			pt, ok := under(tgt.t).(*types.Pointer)
			if !ok {
				m.goPanic("errors: target must be a non-nil pointer")
			}
			c := tgt.v.(*Cell)
			iface, isI := under(pt.Elem()).(*types.Interface)
			work := []IfaceV{a[0].(IfaceV)}
			for n := 0; n < 50 && len(work) > 0; n++ {
				err := work[0]
				work = work[1:]
				if err.t == nil {
					continue
				}
				if isI && types.Implements(err.t, iface) {
					m.storeCell(c, err)
					return m.c.T
				}
				if !isI && types.Identical(err.t, pt.Elem()) {
					m.storeCell(c, err.v)
					return m.c.T
				}
				f := m.P.method(err.t, nil, "Unwrap")
				if f == nil || f.Signature.Results().Len() != 1 {
					continue
				}
				r := m.call(fr.caller, f, []Value{err.v}, nil)
				if sl, ok := r.(SliceV); ok {
					var more []IfaceV
					for i := range sl.c {
						more = append(more, m.loadCell(&sl.c[i], anyT).(IfaceV))
					}
					work = append(more, work...)
				} else {
					work = append([]IfaceV{r.(IfaceV)}, work...)
				}
			}
			return m.c.F
		},
		"(*sync.copyChecker).check":     nop,
		"sync.runtime_notifyListCheck": nop,
		"sync.runtime_notifyListAdd": func(fr *Frame, a []Value) Value {
			s := fr.m.condOf(a[0])
			s.wait++
			return fr.m.c.BV(uint64(s.wait-1), 32)
		},
		"sync.runtime_notifyListWait": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.condOf(a[0])
			t := m.toInt(m.c.Resize(a[1].(*Term), 64, false))
			m.yieldPoint(true, s)
			m.blockUntil(func() bool { return t < s.notify }, s)
			m.hbAcq(&s.vc)
			return TupleV{}
		},
		"sync.runtime_notifyListNotifyAll": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.condOf(a[0])
			m.yieldPoint(true, s)
			s.notify = s.wait
			m.hbRel(&s.vc)
			return TupleV{}
		},
		"sync.runtime_notifyListNotifyOne": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.condOf(a[0])
			m.yieldPoint(true, s)
			if s.notify < s.wait {
				s.notify++
			}
			m.hbRel(&s.vc)
			return TupleV{}
		},
		"context.WithValue": func(fr *Frame, a []Value) Value {
			m := fr.m
			if a[0].(IfaceV).t == nil || a[1].(IfaceV).t == nil {
				m.goPanic("context.WithValue: nil parent or key")
			}
			t := m.pkgType("context", "valueCtx")
			sv := &StructV{f: m.newCells(3)}
			sv.f[0].v, sv.f[1].v, sv.f[2].v = a[0], a[1], a[2]
			return IfaceV{t: types.NewPointer(t), v: m.newCell(sv)}
		},
		"(time.Time).Compare": func(fr *Frame, a []Value) Value {
			m := fr.m
			x, y := m.timeKey(a[0]), m.timeKey(a[1])
			return m.c.Ite(m.c.Cmp(OSlt, x, y), m.constInt(-1), m.c.Ite(m.c.Eq(x, y), m.constInt(0), m.constInt(1)))
		},
		"(*sync.Once).Do": func(fr *Frame, a []Value) Value {
			m := fr.m
			c := a[0].(*Cell)
			if m.po != nil && m.po.active() {
				m.unsupported("sync.Once in PO mode")
			}
			s, _ := m.native[c].(*onceSt)
			if s == nil {
				s = &onceSt{}
				m.native[c] = s
			}
			m.yieldPoint(true, s)
			if s.state == 1 {
				m.blockUntil(func() bool { return s.state == 2 }, s)
			}
			if s.state == 2 {
				m.hbAcq(&s.vc)
				return TupleV{}
			}
			s.state = 1
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.state = 2
						panic(r)
					}
				}()
				m.callValue(fr.caller, a[1], nil)
			}()
			m.yieldPoint(true, s)
			s.state = 2
			m.hbRel(&s.vc)
			return TupleV{}
		},
		"(*sync.WaitGroup).Add": func(fr *Frame, a []Value) Value {
			m := fr.m
			w := m.wgOf(a[0])
			m.yieldPoint(true, w)
			d := m.toInt(a[1])
			if d < 0 {
				m.hbRel(&w.vc)
			}
			w.n += d
			if w.n < 0 {
				m.goPanic("sync: negative WaitGroup counter")
			}
			return TupleV{}
		},
		"(*sync.WaitGroup).Done": func(fr *Frame, a []Value) Value {
			m := fr.m
			w := m.wgOf(a[0])
			m.yieldPoint(true, w)
			m.hbRel(&w.vc)
			w.n--
			if w.n < 0 {
				m.goPanic("sync: negative WaitGroup counter")
			}
			return TupleV{}
		},
		"(*sync.WaitGroup).Wait": func(fr *Frame, a []Value) Value {
			m := fr.m
			w := m.wgOf(a[0])
			m.yieldPoint(true, w)
			m.blockUntil(func() bool { return w.n == 0 }, w)
			m.hbAcq(&w.vc)
			return TupleV{}
		},
		"(*sync.Pool).Get": func(fr *Frame, a []Value) Value {
			m := fr.m
			c := a[0].(*Cell)
			if m.po != nil && m.po.active() {
				return IfaceV{}
			}
			s, _ := m.native[c].(*poolSt)
			if s == nil {
				s = &poolSt{}
				m.native[c] = s
			}
			m.envDep = true
			if len(s.items) > 0 && m.choose(2) == 0 {
				v := s.items[len(s.items)-1]
				s.items = s.items[:len(s.items)-1]
				m.hbAcq(&s.vc)
				return v
			}
			pt := m.pkgType("sync", "Pool")
			st := under(pt).(*types.Struct)
			sv := m.get(c, pt).(*StructV)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					if f, ok := m.get(&sv.f[i], st.Field(i).Type()).(*Closure); ok && f != nil {
						return m.callValue(fr.caller, f, nil)
					}
				}
			}
			return IfaceV{}
		},
		"(*sync.Pool).Put": func(fr *Frame, a []Value) Value {
			m := fr.m
			c := a[0].(*Cell)
			if m.po != nil && m.po.active() {
				return TupleV{}
			}
			s, _ := m.native[c].(*poolSt)
			if s == nil {
				s = &poolSt{}
				m.native[c] = s
			}
			s.items = append(s.items, a[1])
			m.hbRel(&s.vc)
			return TupleV{}
		},
		"(*sync.Map).Load": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(false, s)
			m.hbAcq(&s.vc)
			e := m.mapFind(s.mv, anyT, a[1])
			if e == nil {
				return TupleV{IfaceV{}, m.c.F}
			}
			return TupleV{e.c.v, m.c.T}
		},
		"(*sync.Map).Store": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			m.mapSet(s.mv, anyT, a[1], a[2])
			return TupleV{}
		},
		"(*sync.Map).LoadOrStore": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			if e := m.mapFind(s.mv, anyT, a[1]); e != nil {
				return TupleV{e.c.v, m.c.T}
			}
			m.mapSet(s.mv, anyT, a[1], a[2])
			return TupleV{a[2], m.c.F}
		},
		"(*sync.Map).Swap": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			if e := m.mapFind(s.mv, anyT, a[1]); e != nil {
				old := e.c.v
				e.c.v = a[2]
				return TupleV{old, m.c.T}
			}
			m.mapSet(s.mv, anyT, a[1], a[2])
			return TupleV{IfaceV{}, m.c.F}
		},
		"(*sync.Map).CompareAndSwap": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			if e := m.mapFind(s.mv, anyT, a[1]); e != nil && m.branch(m.eq(anyT, e.c.v, a[2])) {
				e.c.v = a[3]
				return m.c.T
			}
			return m.c.F
		},
		"(*sync.Map).CompareAndDelete": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			if e := m.mapFind(s.mv, anyT, a[1]); e != nil && m.branch(m.eq(anyT, e.c.v, a[2])) {
				m.mapDelEnt(s.mv, anyT, e)
				return m.c.T
			}
			return m.c.F
		},
		"(*sync.Map).LoadAndDelete": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			if e := m.mapFind(s.mv, anyT, a[1]); e != nil {
				v := e.c.v
				m.mapDelEnt(s.mv, anyT, e)
				return TupleV{v, m.c.T}
			}
			return TupleV{IfaceV{}, m.c.F}
		},
		"(*sync.Map).Delete": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(true, s)
			m.hbRelAcq(&s.vc)
			if e := m.mapFind(s.mv, anyT, a[1]); e != nil {
				m.mapDelEnt(s.mv, anyT, e)
			}
			return TupleV{}
		},
		"(*sync.Map).Range": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := m.smap(a[0])
			m.yieldPoint(false, s)
			m.hbAcq(&s.vc)
			it := &RangeIter{m: s.mv, ents: append([]*MapEnt{}, s.mv.ents...)}
			if m.permMaps && len(it.ents) > 1 && len(it.ents) <= 3 {
				m.permute(it)
			}
			for _, e := range it.ents {
				m.yieldPoint(false, s)
				if e.del {
					continue
				}
				r := m.callValue(fr.caller, a[1], []Value{e.k, e.c.v})
				if !m.branch(r.(*Term)) {
					break
				}
			}
			return TupleV{}
		},

		"runtime.GOMAXPROCS": func(fr *Frame, a []Value) Value { return fr.m.gomaxprocs() },
		"runtime.NumCPU":     func(fr *Frame, a []Value) Value { return fr.m.gomaxprocs() },
		"runtime.Gosched":    func(fr *Frame, a []Value) Value { fr.m.yieldPoint(true, "gosched"); return TupleV{} },
		"runtime.GC":         nop,
		"runtime.Caller": func(fr *Frame, a []Value) Value {
			m := fr.m
			return TupleV{m.c.BV(0, 64), S("<file>"), m.constInt(0), m.c.F}
		},
		"runtime.Callers":       func(fr *Frame, a []Value) Value { return fr.m.constInt(0) },
		"runtime.KeepAlive":     nop,
		"runtime.SetFinalizer":  nop,
		"runtime.NumGoroutine":  func(fr *Frame, a []Value) Value { return fr.m.constInt(int64(fr.m.liveThreads())) },
		"internal/abi.NoEscape": func(fr *Frame, a []Value) Value { return a[0] },
		"internal/race.Acquire": nop, "internal/race.Release": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Value":         func(fr *Frame, a []Value) Value { return S("") },
		"internal/godebug.New":                      func(fr *Frame, a []Value) Value { return (*Cell)(nil) },

		"time.Now":   func(fr *Frame, a []Value) Value { return fr.m.timeNow(nil) },
		"time.Since": func(fr *Frame, a []Value) Value { m := fr.m; return m.timeSub(m.nowTerm(), m.nanosOf(a[0]), m.c.Bool(false), m.isZeroTime(a[0])) },
		"time.Until": func(fr *Frame, a []Value) Value { m := fr.m; return m.timeSub(m.nanosOf(a[0]), m.nowTerm(), m.isZeroTime(a[0]), m.c.Bool(false)) },
		"time.Unix": func(fr *Frame, a []Value) Value {
			m := fr.m
			return m.timeVal(nil, m.c.Bin(OAdd, m.c.Bin(OMul, a[0].(*Term), m.constInt(1e9)), a[1].(*Term)))
		},
		"time.UnixMilli": func(fr *Frame, a []Value) Value {
			m := fr.m
			return m.timeVal(nil, m.c.Bin(OMul, a[0].(*Term), m.constInt(1e6)))
		},
		"(time.Time).UnixNano":  func(fr *Frame, a []Value) Value { return fr.m.nanosOf(a[0]) },
		"(time.Time).UnixMicro": func(fr *Frame, a []Value) Value { return fr.m.divC(fr.m.nanosOf(a[0]), 1000) },
		"(time.Time).UnixMilli": func(fr *Frame, a []Value) Value { return fr.m.divC(fr.m.nanosOf(a[0]), 1e6) },
		"(time.Time).Unix":      func(fr *Frame, a []Value) Value { return fr.m.divC(fr.m.nanosOf(a[0]), 1e9) },
		"(time.Time).UTC":       func(fr *Frame, a []Value) Value { return a[0] },
		"(time.Time).Local":     func(fr *Frame, a []Value) Value { return a[0] },
		"(time.Time).Round":     func(fr *Frame, a []Value) Value { return a[0] },
		"(time.Time).Sub":       func(fr *Frame, a []Value) Value { m := fr.m; return m.timeSub(m.nanosOf(a[0]), m.nanosOf(a[1]), m.isZeroTime(a[0]), m.isZeroTime(a[1])) },
		"(time.Time).Add": func(fr *Frame, a []Value) Value {
			m := fr.m
			return m.timeVal(nil, m.c.Bin(OAdd, m.nanosOf(a[0]), a[1].(*Term)))
		},
		"(time.Time).Before":     func(fr *Frame, a []Value) Value { m := fr.m; return m.c.Cmp(OSlt, m.timeKey(a[0]), m.timeKey(a[1])) },
		"(time.Time).After":      func(fr *Frame, a []Value) Value { m := fr.m; return m.c.Cmp(OSlt, m.timeKey(a[1]), m.timeKey(a[0])) },
		"(time.Time).Equal":      func(fr *Frame, a []Value) Value { m := fr.m; return m.c.Eq(m.timeKey(a[0]), m.timeKey(a[1])) },
		"(time.Time).IsZero":     func(fr *Frame, a []Value) Value { m := fr.m; return m.isZeroTime(a[0]) },
		"(time.Time).Format":     func(fr *Frame, a []Value) Value { return S("<time>") },
		"(time.Time).String":     func(fr *Frame, a []Value) Value { return S("<time>") },
		"(time.Duration).String": func(fr *Frame, a []Value) Value {
			if d := a[0].(*Term); d.isC() {
				return S(time.Duration(d.sval()).String())
			}
			return S("<duration>")
		},
		"(time.Duration).Seconds": func(fr *Frame, a []Value) Value {
			t := a[0].(*Term)
			if !t.isC() {
				return float64(0.001) // telemetry only
			}
			return float64(t.sval()) / 1e9
		},
		"time.Sleep":           func(fr *Frame, a []Value) Value { fr.m.yieldPoint(true, "sleep"); return TupleV{} },
		"time.NewTicker":       func(fr *Frame, a []Value) Value { m := fr.m; m.tickerArg(a[0]); return m.makeTicker(fr, "Ticker") },
		"time.NewTimer":        func(fr *Frame, a []Value) Value { return fr.m.makeTicker(fr, "Timer") },
		"time.After":           func(fr *Frame, a []Value) Value { return &ChanV{cap: 1, timer: true, id: fr.m.nextChanID()} },
		"time.Tick":            func(fr *Frame, a []Value) Value { return &ChanV{cap: 1, timer: true, id: fr.m.nextChanID()} },
		"(*time.Ticker).Stop":  nop,
		"(*time.Ticker).Reset": nop,
		"(*time.Timer).Stop":   func(fr *Frame, a []Value) Value { return fr.m.c.T },
		"(*time.Timer).Reset":  func(fr *Frame, a []Value) Value { return fr.m.c.T },
		"time.AfterFunc":       func(fr *Frame, a []Value) Value { return fr.m.makeTicker(fr, "Timer") },
		"fmt.Sprintf":          func(fr *Frame, a []Value) Value { return fr.sprintf(a[0], a[1]) },
		"fmt.Append":   func(fr *Frame, a []Value) Value { return fr.m.appendStr(a[0].(SliceV), fr.sprint(a[1], false).(*Str)) },
		"fmt.Appendln": func(fr *Frame, a []Value) Value { return fr.m.appendStr(a[0].(SliceV), fr.sprint(a[1], true).(*Str)) },
		"fmt.Appendf":  func(fr *Frame, a []Value) Value { return fr.m.appendStr(a[0].(SliceV), fr.sprintf(a[1], a[2]).(*Str)) },
		"fmt.Sprint":           func(fr *Frame, a []Value) Value { return fr.sprint(a[0], false) },
		"fmt.Sprintln":         func(fr *Frame, a []Value) Value { return fr.sprint(a[0], true) },
		"fmt.Printf": func(fr *Frame, a []Value) Value {
			return fr.stdout(func() Value { return fr.sprintf(a[0], a[1]) })
		},
		"fmt.Println": func(fr *Frame, a []Value) Value {
			return fr.stdout(func() Value { return fr.sprint(a[0], true) })
		},
		"fmt.Print": func(fr *Frame, a []Value) Value {
			return fr.stdout(func() Value { return fr.sprint(a[0], false) })
		},
		"os.Exit": func(fr *Frame, a []Value) Value {
			if n := fr.m.toInt(a[0]); n != 0 {
				fr.m.assert(fr.m.c.Bool(false), exitMsg)
			}
			fr.m.unsupported("os.Exit(0)")
			return TupleV{}
		},
		"log.Printf":           nop, "log.Println": nop, "log.Print": nop,
		"fmt.Fprintf": func(fr *Frame, a []Value) Value { return fr.fwrite(a[0], fr.sprintf(a[1], a[2]).(*Str)) },
		"fmt.Fprint":  func(fr *Frame, a []Value) Value { return fr.fwrite(a[0], fr.sprint(a[1], false).(*Str)) },
		"fmt.Fprintln": func(fr *Frame, a []Value) Value {
			return fr.fwrite(a[0], fr.sprint(a[1], true).(*Str))
		},
		"fmt.Errorf":                 func(fr *Frame, a []Value) Value { return fr.errorf(a[0], a[1]) },
		"errors.Is":                  func(fr *Frame, a []Value) Value { return fr.errorsIs(a[0].(IfaceV), a[1].(IfaceV)) },
		"crypto/rand.Read":           func(fr *Frame, a []Value) Value { return fr.randRead(a[0]) },
		"(*crypto/rand.reader).Read": func(fr *Frame, a []Value) Value { return fr.randRead(a[1]) },
		"strconv.Itoa":               func(fr *Frame, a []Value) Value { return fr.m.fmtInt(a[0].(*Term), true) },
		"strconv.FormatInt":          func(fr *Frame, a []Value) Value { return fr.formatInt(a, true) },
		"strconv.FormatUint":         func(fr *Frame, a []Value) Value { return fr.formatInt(a, false) },
		"strconv.ParseInt":           func(fr *Frame, a []Value) Value { return fr.parseInt(a) },
		"strconv.Atoi": func(fr *Frame, a []Value) Value {
			return fr.parseInt([]Value{a[0], fr.m.constInt(10), fr.m.constInt(64)})
		},
		"time.runtimeNano": func(fr *Frame, a []Value) Value { return fr.m.constInt(1) },
		"strconv.FormatFloat": func(fr *Frame, a []Value) Value {
			f, ok := a[0].(float64)
			if !ok {
				fr.m.unsupported("formatting a symbolic float")
			}
			return S(strconv.FormatFloat(f, byte(fr.m.toInt(a[1])), fr.m.toInt(a[2]), fr.m.toInt(a[3])))
		},
		"strconv.Quote": func(fr *Frame, a []Value) Value {
			s := a[0].(*Str)
			if s.conc() {
				return S(strconv.Quote(s.s))
			}
			return s
		},
		"internal/bytealg.IndexByteString": func(fr *Frame, a []Value) Value {
			return fr.m.indexByte(a[0].(*Str).elems(fr.m.c), a[1].(*Term))
		},
		"internal/bytealg.IndexByte": func(fr *Frame, a []Value) Value {
			return fr.m.indexByte(fr.m.bytesToStr(a[0].(SliceV)).elems(fr.m.c), a[1].(*Term))
		},
		"internal/bytealg.CountString": func(fr *Frame, a []Value) Value {
			return fr.m.countByte(a[0].(*Str).elems(fr.m.c), a[1].(*Term))
		},
		"internal/bytealg.Count": func(fr *Frame, a []Value) Value {
			return fr.m.countByte(fr.m.bytesToStr(a[0].(SliceV)).elems(fr.m.c), a[1].(*Term))
		},
		"internal/bytealg.Equal": func(fr *Frame, a []Value) Value {
			return fr.m.strEq(fr.m.bytesToStr(a[0].(SliceV)), fr.m.bytesToStr(a[1].(SliceV)))
		},
		"bytes.Equal": func(fr *Frame, a []Value) Value {
			return fr.m.strEq(fr.m.bytesToStr(a[0].(SliceV)), fr.m.bytesToStr(a[1].(SliceV)))
		},
		"internal/bytealg.Compare": func(fr *Frame, a []Value) Value {
			x, y := fr.m.bytesToStr(a[0].(SliceV)), fr.m.bytesToStr(a[1].(SliceV))
			m := fr.m
			return m.c.Ite(m.strEq(x, y), m.constInt(0), m.c.Ite(m.strLess(x, y), m.constInt(-1), m.constInt(1)))
		},
		"strings.Compare": func(fr *Frame, a []Value) Value {
			x, y := a[0].(*Str), a[1].(*Str)
			m := fr.m
			return m.c.Ite(m.strEq(x, y), m.constInt(0), m.c.Ite(m.strLess(x, y), m.constInt(-1), m.constInt(1)))
		},
		"strings.Index":              func(fr *Frame, a []Value) Value { return fr.m.strFind(a[0].(*Str), a[1].(*Str)) },
		"internal/stringslite.Index": func(fr *Frame, a []Value) Value { return fr.m.strFind(a[0].(*Str), a[1].(*Str)) },
		"strings.Contains": func(fr *Frame, a []Value) Value {
			return fr.m.c.Cmp(OSle, fr.m.constInt(0), fr.m.strFind(a[0].(*Str), a[1].(*Str)))
		},
		"strings.ToLower": func(fr *Frame, a []Value) Value { return fr.m.mapBytes(a[0].(*Str), strings.ToLower, 'A', 'Z', 32) },
		"strings.ToUpper": func(fr *Frame, a []Value) Value { return fr.m.mapBytes(a[0].(*Str), strings.ToUpper, 'a', 'z', 0xE0) },
		"reflect.TypeOf":  func(fr *Frame, a []Value) Value { return IfaceV{} },
		"reflect.TypeFor": func(fr *Frame, a []Value) Value { return IfaceV{} },
		// pdqsort is an insertion sort below 12 elements, SliceStable below 20
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"math.Float64bits": func(fr *Frame, a []Value) Value { return fr.m.c.BV(f64bits(a[0].(float64)), 64) },
		"math.Float64frombits": func(fr *Frame, a []Value) Value {
			t := a[0].(*Term)
			if !t.isC() {
				fr.m.unsupported("symbolic float bits")
			}
			return f64frombits(t.val)
		},
		"math.Sqrt":         func(fr *Frame, a []Value) Value { return sqrt(a[0].(float64)) },
		"math.Log":          func(fr *Frame, a []Value) Value { return math.Log(a[0].(float64)) },
		"math.Floor":        func(fr *Frame, a []Value) Value { return floor(a[0].(float64)) },
		"math/rand.Float64": func(fr *Frame, a []Value) Value { return 0.5 },
		"math/rand.Int63":   func(fr *Frame, a []Value) Value { return fr.m.c.Zext(fr.m.newVar("rand", 63, false, true), 64) },
		// a random source yields any value; floats come from a few representative points
		"math/rand.NewSource": func(fr *Frame, a []Value) Value { return IfaceV{} },
		"math/rand.Seed":      nop,
		"(*math/rand.Rand).Intn": func(fr *Frame, a []Value) Value {
			m := fr.m
			m.envDep = true
			if n := a[1].(*Term); n.isC() && n.sval() > 0 && n.sval() <= 16 {
				return m.constInt(int64(m.choose(int(n.sval()))))
			}
			v := m.newVar("rand", 64, true, true)
			m.assume(m.c.And(m.c.Cmp(OSle, m.constInt(0), v), m.c.Cmp(OSlt, v, a[1].(*Term))))
			return v
		},
		"(*math/rand.Rand).Float64": func(fr *Frame, a []Value) Value {
			fr.m.envDep = true
			return []float64{0, 0.9999999}[fr.m.choose(2)]
		},
		"os.Getenv": func(fr *Frame, a []Value) Value {
			if k := a[0].(*Str); k.s != "" && fr.m.environ[k.s] != nil {
				return fr.m.environ[k.s]
			}
			return S("")
		},
		"os.Setenv": func(fr *Frame, a []Value) Value {
			if fr.m.environ == nil {
				fr.m.environ = map[string]Value{}
			}
			fr.m.environ[a[0].(*Str).s] = a[1]
			return fr.m.nilErr()
		},
		"context.WithTimeout": func(fr *Frame, a []Value) Value {
			return fr.m.call(fr.caller, fr.m.P.fn("context", "WithCancel"), a[:1], nil)
		},
		"context.WithDeadline": func(fr *Frame, a []Value) Value {
			return fr.m.call(fr.caller, fr.m.P.fn("context", "WithCancel"), a[:1], nil)
		},
	}
}

func (P *Program) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	if p := P.pkgs[pkg]; p != nil {
		return p.Func(name)
	}
	return nil
}

func (m *Machine) liveThreads() int {
	n := 0
	for _, t := range m.threads {
		if !t.done {
			n++
		}
	}
	return n
}

func (m *Machine) tickerArg(v Value) {
	t := v.(*Term)
	if !m.branch(m.c.Cmp(OSlt, m.constInt(0), t)) {
		m.goPanic("non-positive interval for NewTicker")
	}
}

func (m *Machine) divC(t *Term, k int64) *Term { return m.c.Bin(OSDiv, t, m.constInt(k)) }

func (m *Machine) wgOf(p Value) *wgSt {
	c := p.(*Cell)
	s, _ := m.native[c].(*wgSt)
	if s == nil {
		s = &wgSt{}
		m.native[c] = s
	}
	return s
}

func (m *Machine) indexByte(el []SElem, b *Term) Value {
	for i, e := range el {
		if e.dec != nil {
			m.unsupported("search in decimal chunk")
		}
		if m.branch(m.c.Eq(e.b, b)) {
			return m.constInt(int64(i))
		}
	}
	return m.constInt(-1)
}

func (m *Machine) countByte(el []SElem, b *Term) Value {
	acc := m.constInt(0)
	for _, e := range el {
		if e.dec != nil {
			m.unsupported("search in decimal chunk")
		}
		acc = m.c.Bin(OAdd, acc, m.c.Ite(m.c.Eq(e.b, b), m.constInt(1), m.constInt(0)))
	}
	return acc
}

func (m *Machine) strFind(s, sub *Str) *Term {
	if s.conc() && sub.conc() {
		return m.constInt(int64(strings.Index(s.s, sub.s)))
	}
	x, y := s.elems(m.c), sub.elems(m.c)
	for i := 0; i+len(y) <= len(x); i++ {
		if s.hasDec() || sub.hasDec() {
			m.unsupported("search in decimal chunk")
		}
		if m.branch(m.elemsEq(x[i:i+len(y)], y)) {
			return m.constInt(int64(i))
		}
	}
	return m.constInt(-1)
}

func (m *Machine) mapBytes(s *Str, f func(string) string, lo, hi byte, add uint64) Value {
	if s.conc() {
		return S(f(s.s))
	}
	el := make([]SElem, len(s.el))
	for i, e := range s.el {
		if e.dec != nil {
			el[i] = e
			continue
		}
		in := m.c.And(m.c.Cmp(OUle, m.c.BV(uint64(lo), 8), e.b), m.c.Cmp(OUle, e.b, m.c.BV(uint64(hi), 8)))
		el[i] = SElem{b: m.c.Ite(in, m.c.Bin(OAdd, e.b, m.c.BV(add, 8)), e.b)}
	}
	return normStr(m.c, el)
}

func (m *Machine) fmtInt(t *Term, signed bool) *Str {
	if t.isC() {
		if signed {
			return S(strconv.FormatInt(t.sval(), 10))
		}
		return S(strconv.FormatUint(t.val, 10))
	}
	return &Str{el: []SElem{{dec: m.c.Resize(t, 64, signed)}}}
}

func (fr *Frame) formatInt(a []Value, signed bool) Value {
	m := fr.m
	base := a[1].(*Term)
	t := a[0].(*Term)
	if base.isC() && base.val == 10 {
		return m.fmtInt(t, signed)
	}
	if t.isC() && base.isC() {
		if signed {
			return S(strconv.FormatInt(t.sval(), int(base.val)))
		}
		return S(strconv.FormatUint(t.val, int(base.val)))
	}
	m.unsupported("FormatInt base")
	return nil
}

func (fr *Frame) parseInt(a []Value) Value {
	m := fr.m
	s := a[0].(*Str)
	if s.conc() {
		v, err := strconv.ParseInt(s.s, int(a[1].(*Term).sval()), int(a[2].(*Term).sval()))
		if err != nil {
			return TupleV{m.constInt(v), m.newErrString(S("strconv.ParseInt: " + err.Error()))}
		}
		return TupleV{m.constInt(v), IfaceV{}}
	}
	if len(s.el) == 1 && s.el[0].dec != nil {
		return TupleV{s.el[0].dec, IfaceV{}}
	}
	c := m.c
	base, bits := a[1].(*Term), a[2].(*Term)
	el := s.el
	for _, e := range el {
		if e.dec != nil {
			m.unsupported("ParseInt of symbolic string")
		}
	}
	if !base.isC() || !bits.isC() || base.val != 10 || len(el) == 0 || len(el) > 18 {
		m.unsupported("ParseInt of symbolic string")
	}
	bad := func(why string) Value {
		return TupleV{m.constInt(0), m.newErrString(S("strconv.ParseInt: parsing: " + why))}
	}
	neg := false
	if m.branch(c.Eq(el[0].b, c.BV('-', 8))) {
		neg = true
		el = el[1:]
	} else if m.branch(c.Eq(el[0].b, c.BV('+', 8))) {
		el = el[1:]
	}
	if len(el) == 0 {
		return bad("invalid syntax")
	}
	ok := c.T
	v := c.BV(0, 64)
	for _, e := range el {
		ok = c.And(ok, c.And(c.Cmp(OUle, c.BV('0', 8), e.b), c.Cmp(OUle, e.b, c.BV('9', 8))))
		d := m.digitOf[e.b]
		if d == nil {
			d = c.Bin(OSub, e.b, c.BV('0', 8))
		}
		v = c.Bin(OAdd, c.Bin(OMul, v, c.BV(10, 64)), c.Zext(d, 64))
	}
	if !m.branch(ok) {
		return bad("invalid syntax")
	}
	if neg {
		v = c.Bin(OSub, c.BV(0, 64), v)
	}
	if n := bits.val; n != 0 && n < 64 {
		lim := int64(1) << (n - 1)
		if !m.branch(c.And(c.Cmp(OSle, c.BV(uint64(-lim), 64), v), c.Cmp(OSlt, v, c.BV(uint64(lim), 64)))) {
			m.unsupported("ParseInt out of range")
		}
	}
	return TupleV{v, IfaceV{}}
}

func (fr *Frame) randRead(v Value) Value {
	m := fr.m
	s := v.(SliceV)
	for i := range s.c {
		b := m.newVar("randbyte", 8, false, true)
		m.random = append(m.random, b)
		m.storeCell(&s.c[i], b)
	}
	return TupleV{m.constInt(int64(len(s.c))), IfaceV{}}
}

// ---- fmt ----

func (fr *Frame) fmtVal(v IfaceV, verb byte) *Str {
	m := fr.m
	if v.t == nil {
		return S("<nil>")
	}
	if verb != 'd' && verb != 'x' && verb != 'T' {
		if f := m.P.method(v.t, nil, "Error"); f != nil && isErrorMethod(f) {
			if c, ok := v.v.(*Cell); ok && c == nil {
				return S("<nil>")
			}
			return m.call(fr.caller, f, []Value{v.v}, nil).(*Str)
		}
	}
	if verb == 'v' || verb == '+' || verb == 's' || verb == 'q' {
		if f := m.P.method(v.t, nil, "String"); f != nil && isErrorMethod(f) && !strings.HasPrefix(v.t.String(), "*reflect.") {
			if c, ok := v.v.(*Cell); ok && c == nil {
				return S("<nil>")
			}
			if r, ok := m.call(fr.caller, f, []Value{v.v}, nil).(*Str); ok {
				return r
			}
		}
	}
	if nv, ok := m.concNative(v); ok {
		if verb == '+' {
			verb = 'v'
		}
		return S(fmt.Sprintf("%"+string(verb), nv))
	}
	switch x := v.v.(type) {
	case *Str:
		if verb == 'q' && x.conc() {
			return S(strconv.Quote(x.s))
		}
		return x
	case *Term:
		if x.w == 0 {
			if x.isC() {
				return S(strconv.FormatBool(x.val == 1))
			}
			return S("<bool>")
		}
		_, sg, _ := intInfo(v.t)
		if verb == 'x' {
			if x.isC() {
				return S(strconv.FormatUint(x.val, 16))
			}
			m.unsupported("%x of symbolic value")
		}
		return m.fmtInt(x, sg)
	case float64:
		return S(strconv.FormatFloat(x, 'g', -1, 64))
	case *StructV:
		if st, ok := under(v.t).(*types.Struct); ok && (verb == 'v' || verb == '+') {
			out := S("{")
			for i := range x.f {
				ft := st.Field(i).Type()
				e := m.loadCell(&x.f[i], ft)
				iv, ok := e.(IfaceV)
				if !ok {
					iv = IfaceV{t: ft, v: e}
				}
				if i > 0 {
					out = concatStr(m.c, out, S(" "))
				}
				if verb == '+' {
					out = concatStr(m.c, out, S(st.Field(i).Name()+":"))
				}
				out = concatStr(m.c, out, fr.fmtVal(iv, verb))
			}
			return concatStr(m.c, out, S("}"))
		}
	case SliceV:
		if sl, ok := under(v.t).(*types.Slice); ok {
			if w, _, ok := intInfo(sl.Elem()); ok && w == 8 && (verb == 's') {
				return m.bytesToStr(x)
			}
			if verb == 'v' || verb == 'd' || verb == 's' || verb == '+' {
				out := S("[")
				for i := range x.c {
					e := m.loadCell(&x.c[i], sl.Elem())
					iv, ok := e.(IfaceV)
					if !ok {
						iv = IfaceV{t: sl.Elem(), v: e}
					}
					if i > 0 {
						out = concatStr(m.c, out, S(" "))
					}
					out = concatStr(m.c, out, fr.fmtVal(iv, verb))
				}
				return concatStr(m.c, out, S("]"))
			}
		}
	}
	return S("<" + v.t.String() + ">")
}

func (m *Machine) hasFmtMethod(v IfaceV) bool {
	return v.t != nil && (m.P.method(v.t, nil, "Error") != nil || m.P.method(v.t, nil, "String") != nil)
}

// concNative is the Go value of a concrete value of a basic type, or of a slice of bytes.
func (m *Machine) concNative(v IfaceV) (any, bool) {
	if v.t == nil {
		return nil, false
	}
	switch x := v.v.(type) {
	case *Str:
		if x.conc() {
			return x.s, true
		}
	case float64:
		if b, ok := under(v.t).(*types.Basic); ok && b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case *Term:
		if !x.isC() {
			return nil, false
		}
		b, ok := under(v.t).(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.val == 1, true
		case types.Int, types.Int64:
			return x.sval(), true
		case types.Int32:
			return int32(x.sval()), true
		case types.Int16:
			return int16(x.sval()), true
		case types.Int8:
			return int8(x.sval()), true
		case types.Uint, types.Uint64, types.Uintptr:
			return x.val, true
		case types.Uint32:
			return uint32(x.val), true
		case types.Uint16:
			return uint16(x.val), true
		case types.Uint8:
			return uint8(x.val), true
		}
	case SliceV:
		if sl, ok := under(v.t).(*types.Slice); ok {
			if w, _, ok := intInfo(sl.Elem()); ok && w == 8 {
				if st := m.bytesToStr(x); st.conc() {
					return []byte(st.s), true
				}
			}
		}
	}
	return nil, false
}

func (m *Machine) appendStr(b SliceV, s *Str) Value {
	t := m.strToBytes(s)
	out := m.newCells(len(b.c) + len(t.c))
	bt := types.Typ[types.Uint8]
	for i := range b.c {
		out[i].v = m.loadCell(&b.c[i], bt)
	}
	for i := range t.c {
		out[len(b.c)+i].v = t.c[i].v
	}
	return SliceV{c: out}
}

func isErrorMethod(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isString(s.Results().At(0).Type())
}

func (fr *Frame) sprintf(fv, av Value) Value {
	m := fr.m
	f := fv.(*Str)
	if !f.conc() {
		m.unsupported("symbolic format")
	}
	var args []IfaceV
	s := av.(SliceV)
	for i := range s.c {
		args = append(args, m.loadCell(&s.c[i], anyT).(IfaceV))
	}
	out := S("")
	ai := 0
	fs := f.s
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			out = concatStr(m.c, out, S(fs[i:j]))
			i = j - 1
			continue
		}
		i++
		j := i
		for j < len(fs) && strings.IndexByte("+-# 0123456789.*", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			break
		}
		verb := fs[j]
		mods := fs[i:j]
		i = j
		if verb == '%' {
			out = concatStr(m.c, out, S("%"))
			continue
		}
		if ai >= len(args) {
			out = concatStr(m.c, out, S("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if mods != "" && strings.IndexByte(mods, '*') < 0 && (verb == 'd' || verb == 'x' || verb == 'X' || !m.hasFmtMethod(a)) {
			if nv, ok := m.concNative(a); ok {
				out = concatStr(m.c, out, S(fmt.Sprintf("%"+mods+string(verb), nv)))
				continue
			}
		}
		if mods != "" {
			if t, ok := a.v.(*Term); ok && t.isC() && (verb == 'd' || verb == 'x' || verb == 'X') {
				_, sg, _ := intInfo(a.t)
				if sg {
					out = concatStr(m.c, out, S(fmt.Sprintf("%"+mods+string(verb), t.sval())))
				} else {
					out = concatStr(m.c, out, S(fmt.Sprintf("%"+mods+string(verb), t.val)))
				}
				continue
			}
			if fl, ok := a.v.(float64); ok {
				out = concatStr(m.c, out, S(fmt.Sprintf("%"+mods+string(verb), fl)))
				continue
			}
			if verb == 'x' || verb == 'd' && mods[0] == '0' {
				m.unsupported("Sprintf %" + mods + string(verb) + " of symbolic value")
			}
		}
		if mods == "+" && verb == 'v' {
			verb = '+'
		}
		out = concatStr(m.c, out, fr.fmtVal(a, verb))
	}
	return out
}

func (fr *Frame) sprint(av Value, ln bool) Value {
	m := fr.m
	s := av.(SliceV)
	out := S("")
	prevStr := true
	for i := range s.c {
		a := m.loadCell(&s.c[i], anyT).(IfaceV)
		_, isS := a.v.(*Str)
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = concatStr(m.c, out, S(" "))
		}
		prevStr = isS
		out = concatStr(m.c, out, fr.fmtVal(a, 'v'))
	}
	if ln {
		out = concatStr(m.c, out, S("\n"))
	}
	return out
}

// stdout writes to os.Stdout where the harness has put a modelled file there; otherwise the text goes nowhere.
func (fr *Frame) stdout(text func() Value) Value {
	m := fr.m
	if m.P.models["(*os.File).Write"] != nil {
		g := m.P.pkgs["os"].Var("Stdout")
		if f, ok := m.loadCell(m.global(g), deref(g.Type())).(*Cell); ok && f != nil {
			return fr.fwrite(IfaceV{t: deref(g.Type()), v: f}, text().(*Str))
		}
	}
	return TupleV{m.constInt(0), IfaceV{}}
}

func (fr *Frame) fwrite(w Value, s *Str) Value {
	m := fr.m
	iw := w.(IfaceV)
	if iw.t == nil {
		m.goPanic("nil writer")
	}
	if iw.t.String() == "*os.File" {
		if f := m.P.models["(*os.File).Write"]; f != nil {
			if c, ok := iw.v.(*Cell); ok && c != nil {
				r := m.raceOn // an os.File synchronises its own calls
				m.raceOn = false
				defer func() { m.raceOn = r }()
				return m.call(fr.caller, f, []Value{iw.v, m.strToBytes(s)}, nil)
			}
		}
		return TupleV{m.constInt(0), IfaceV{}}
	}
	f := m.P.method(iw.t, nil, "Write")
	if f == nil {
		m.unsupported("Fprintf to " + iw.t.String())
	}
	return m.call(fr.caller, f, []Value{iw.v, m.strToBytes(s)}, nil)
}

func (fr *Frame) errorf(fv, av Value) Value {
	m := fr.m
	msg := fr.sprintf(S(strings.ReplaceAll(fv.(*Str).s, "%w", "%v")), av).(*Str)
	f := fv.(*Str).s
	if i := strings.Index(f, "%w"); i >= 0 {
		// argument index of %w
		k := 0
		for j := 0; j < i; j++ {
			if f[j] == '%' {
				if f[j+1] == '%' {
					j++
				} else {
					k++
				}
			}
		}
		s := av.(SliceV)
		if k < len(s.c) {
			if e := m.loadCell(&s.c[k], anyT).(IfaceV); e.t != nil {
				t := m.pkgType("fmt", "wrapError")
				sv := &StructV{f: m.newCells(2)}
				sv.f[0].v = msg
				sv.f[1].v = e
				return IfaceV{t: types.NewPointer(t), v: m.newCell(sv)}
			}
		}
	}
	return m.newErrString(msg)
}

func (fr *Frame) errorsIs(err, target IfaceV) Value {
	m := fr.m
	for n := 0; n < 50; n++ {
		if err.t == nil {
			return m.c.Bool(target.t == nil)
		}
		if target.t != nil && types.Identical(err.t, target.t) && types.Comparable(err.t) {
			if m.branch(m.eq(anyT, err, target)) {
				return m.c.T
			}
		}
		f := m.P.method(err.t, nil, "Unwrap")
		if f == nil {
			return m.c.F
		}
		if f.Signature.Results().Len() != 1 {
			return m.c.F
		}
		r := m.call(fr.caller, f, []Value{err.v}, nil)
		if sl, ok := r.(SliceV); ok {
			for i := range sl.c {
				if m.branch(fr.errorsIs(m.loadCell(&sl.c[i], anyT).(IfaceV), target).(*Term)) {
					return m.c.T
				}
			}
			return m.c.F
		}
		err = r.(IfaceV)
		if err.t == nil {
			return m.c.F
		}
	}
	return m.c.F
}

func sortSlice(fr *Frame, a []Value) Value {
	m := fr.m
	iv := a[0].(IfaceV)
	sl := iv.v.(SliceV)
	et := iv.t.Underlying().(*types.Slice).Elem()
	for i := 1; i < len(sl.c); i++ {
		for j := i; j > 0; j-- {
			r := m.callValue(fr.caller, a[1], []Value{m.constInt(int64(j)), m.constInt(int64(j - 1))})
			if !m.branch(r.(*Term)) {
				break
			}
			x, y := m.loadCell(&sl.c[j], et), m.loadCell(&sl.c[j-1], et)
			m.storeCell(&sl.c[j], y)
			m.storeCell(&sl.c[j-1], x)
		}
	}
	return TupleV{}
}
