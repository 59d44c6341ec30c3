package main

// Engine side of the harness run-time (package rt).

import (
	"fmt"
	"go/types"
)

var rtFns map[string]natFn

func init() {
	nd := func(w uint8, s bool) natFn {
		return func(fr *Frame, a []Value) Value {
			return fr.m.newVar(a[0].(*Str).s, w, s, true)
		}
	}
	rtFns = map[string]natFn{
		"Int64": nd(64, true), "Int": nd(64, true), "Int32": nd(32, true), "Uint64": nd(64, false), "Uint32": nd(32, false), "Uint8": nd(8, false),
		"Bool": func(fr *Frame, a []Value) Value {
			m := fr.m
			v := m.newVar(a[0].(*Str).s, 1, false, true)
			return m.c.Eq(v, m.c.BV(1, 1))
		},
		"String": func(fr *Frame, a []Value) Value {
			m := fr.m
			n := m.toInt(a[1])
			el := make([]SElem, n)
			for i := range el {
				el[i] = SElem{b: m.newVar(a[0].(*Str).s, 8, false, true)}
			}
			if n == 0 {
				return S("")
			}
			return &Str{el: el}
		},
		"Bytes": func(fr *Frame, a []Value) Value {
			m := fr.m
			n := m.toInt(a[1])
			c := m.newCells(n)
			for i := range c {
				c[i].v = m.newVar(a[0].(*Str).s, 8, false, true)
			}
			return SliceV{c: c}
		},
		"Choose": func(fr *Frame, a []Value) Value {
			m := fr.m
			n := m.toInt(a[1])
			k := m.choose(n)
			t := m.constInt(int64(k))
			m.inputs = append(m.inputs, Input{a[0].(*Str).s, t, true})
			m.splits = append(m.splits, fmt.Sprintf("%s=%d", a[0].(*Str).s, k))
			return t
		},
		"Random": func(fr *Frame, a []Value) Value {
			m := fr.m
			c := m.newCells(len(m.random))
			for i := range c {
				c[i].v = m.random[i]
			}
			return SliceV{c: c}
		},
		"Concrete": func(fr *Frame, a []Value) Value {
			return fr.m.constInt(int64(fr.m.concretize(a[0].(*Term))))
		},
		"Assume": func(fr *Frame, a []Value) Value { fr.m.assume(a[0].(*Term)); return TupleV{} },
		"Assert": func(fr *Frame, a []Value) Value {
			fr.m.assert(a[0].(*Term), a[1].(*Str).s)
			return TupleV{}
		},
		"Reach":    func(fr *Frame, a []Value) Value { fr.m.reach[a[0].(*Str).s]++; return TupleV{} },
		"Thorough": func(fr *Frame, a []Value) Value { return fr.m.c.Bool(gTier == "thorough") },
		"Symbolic": func(fr *Frame, a []Value) Value { return fr.m.c.T },
		"Serial":   func(fr *Frame, a []Value) Value { fr.m.serial = fr.m.branch(a[0].(*Term)); return TupleV{} },
		"Clock":    func(fr *Frame, a []Value) Value { fr.m.clock = int64(fr.m.toInt(a[0])); return TupleV{} },
		"Advance": func(fr *Frame, a []Value) Value {
			m := fr.m
			if m.frozen == nil {
				m.frozen = m.nowTerm()
			}
			m.frozen = m.c.Bin(OAdd, m.frozen, a[0].(*Term))
			m.lastNow, m.envDep = m.frozen, true
			return TupleV{}
		},
		"Ticks":    func(fr *Frame, a []Value) Value { fr.m.tickLeft = fr.m.toInt(a[0]); return TupleV{} },
		"Races":    func(fr *Frame, a []Value) Value { fr.m.raceOn = fr.m.branch(a[0].(*Term)); return TupleV{} },
		"MustTerminate": func(fr *Frame, a []Value) Value {
			m := fr.m
			m.stepCap = m.steps + int64(m.toInt(a[0]))
			m.limitIsV = a[1].(*Str).s
			return TupleV{}
		},
		"EndTerminate": func(fr *Frame, a []Value) Value {
			m := fr.m
			m.stepCap = m.opts.MaxSteps
			m.limitIsV = ""
			return TupleV{}
		},
		"Atomic": func(fr *Frame, a []Value) Value {
			m := fr.m
			r := m.raceOn
			m.raceOn = false
			m.initing++
			m.callValue(fr.caller, a[0], nil)
			m.initing--
			m.raceOn = r
			return TupleV{}
		},
		"Yield": func(fr *Frame, a []Value) Value { fr.m.yieldPoint(true, "yield"); return TupleV{} },
		"Live":  func(fr *Frame, a []Value) Value { return fr.m.constInt(int64(fr.m.liveThreads() - 1 - fr.m.poLive())) },
		"Quiesce": func(fr *Frame, a []Value) Value {
			m := fr.m
			self := m.cur
			m.blockUntil(func() bool {
				for _, t := range m.threads {
					if t != self && !t.po && !t.done && (t.blocked == nil || t.blocked()) {
						return false
					}
				}
				return true
			}, "quiesce")
			for _, t := range m.threads {
				m.hbJoin(t)
			}
			return TupleV{}
		},
		"Par": func(fr *Frame, a []Value) Value {
			m := fr.m
			s := a[0].(SliceV)
			var ts []*Thread
			ft := types.NewSignatureType(nil, nil, nil, nil, nil, false)
			for i := range s.c {
				f := m.loadCell(&s.c[i], ft)
				t := m.newThread(fmt.Sprintf("p%d", i))
				m.hbFork(t)
				t.body = func() { m.callValue(nil, f, nil) }
				ts = append(ts, t)
				m.startThread(t)
			}
			m.blockUntil(func() bool {
				for _, t := range ts {
					if !t.done {
						return false
					}
				}
				return true
			}, "par")
			for _, t := range ts {
				m.hbJoin(t)
			}
			return TupleV{}
		},
		"Concurrent": func(fr *Frame, a []Value) Value {
			fr.m.concurrent(fr, a[0], a[1].(SliceV))
			return TupleV{}
		},
		"Now": func(fr *Frame, a []Value) Value { return fr.m.nowTerm() },
	}
}

func (m *Machine) hbJoin(t *Thread) {
	if m.cur != nil {
		vcJoin(&m.cur.vc, t.vc)
	}
}

func (m *Machine) poLive() int {
	n := 0
	for _, t := range m.threads {
		if t.po && !t.done {
			n++
		}
	}
	return n
}
