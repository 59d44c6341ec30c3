package main

// Run-time values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Cell is one addressable memory slot. v == nil means "zero value, not yet materialised".
type Cell struct {
	v     Value
	owner int32 // PO mode: thread that allocated it (0 = shared/setup)
}

type StructV struct{ f []Cell }
type ArrayV struct{ c []Cell }

// SliceV shares its backing cells like a Go slice. nil slice: c == nil.
type SliceV struct{ c []Cell }

// Ptr is *Cell. SymPtr points at one of several cells, chosen by a symbolic index.
type SymPtr struct {
	base []Cell
	idx  *Term
	path []int // field path applied after indexing
}

type IfaceV struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(fr *Frame, args []Value) Value
	name string
}

type TupleV []Value

type BoundMethod struct{}

type UPtr struct { // unsafe.Pointer
	c     *Cell
	cells []Cell // remaining cells from this address (byte data)
	p     Value
}

type MapEnt struct {
	k   Value
	c   *Cell
	del bool
}
type MapV struct {
	ents []*MapEnt
	idx  map[string]*MapEnt // concrete keys
	sym  int                // number of live entries with symbolic key
	n    int
	id   int
}

type RangeIter struct {
	ents []*MapEnt
	m    *MapV
	s    *Str
	i    int
}

// Str: either fully concrete (el == nil) or a list of elements.
type SElem struct {
	b   *Term // byte (bv8)
	dec *Term // decimal rendering of a signed 64-bit integer (opaque chunk)
}
type Str struct {
	s  string
	el []SElem
}

func S(s string) *Str { return &Str{s: s} }

func (s *Str) conc() bool { return s.el == nil }

func (s *Str) hasDec() bool {
	for _, e := range s.el {
		if e.dec != nil {
			return true
		}
	}
	return false
}

func normStr(c *TermCtx, el []SElem) *Str {
	var sb strings.Builder
	for _, e := range el {
		if e.dec != nil || !e.b.isC() {
			return &Str{el: el}
		}
		sb.WriteByte(byte(e.b.val))
	}
	return &Str{s: sb.String()}
}

func (s *Str) elems(c *TermCtx) []SElem {
	if s.el != nil {
		return s.el
	}
	r := make([]SElem, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = SElem{b: c.BV(uint64(s.s[i]), 8)}
	}
	return r
}

func concatStr(c *TermCtx, a, b *Str) *Str {
	if a.conc() && b.conc() {
		return S(a.s + b.s)
	}
	return normStr(c, append(append([]SElem{}, a.elems(c)...), b.elems(c)...))
}

func (s *Str) String() string {
	if s.conc() {
		return fmt.Sprintf("%q", s.s)
	}
	var sb strings.Builder
	sb.WriteString("«")
	for _, e := range s.el {
		switch {
		case e.dec != nil:
			sb.WriteString("<dec>")
		case e.b.isC():
			sb.WriteByte(byte(e.b.val))
		default:
			sb.WriteString("?")
		}
	}
	sb.WriteString("»")
	return sb.String()
}

func under(t types.Type) types.Type { return t.Underlying() }

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of non-pointer " + t.String())
}

// intInfo returns (width, signed, ok) for integer types.
func intInfo(t types.Type) (uint8, bool, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (m *Machine) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return m.c.BV(0, w)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.c.F
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return S("")
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Struct:
		return &StructV{f: m.newCells(u.NumFields())}
	case *types.Array:
		return &ArrayV{c: m.newCells(int(u.Len()))}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	m.unsupported("zero value of " + t.String())
	return nil
}

func (m *Machine) newCells(n int) []Cell {
	c := make([]Cell, n)
	if m.curOwner != 0 {
		for i := range c {
			c[i].owner = m.curOwner
		}
	}
	return c
}

func (m *Machine) newCell(v Value) *Cell {
	return &Cell{v: v, owner: m.curOwner}
}

// get materialises the content of a cell of type t (no copy).
func (m *Machine) get(c *Cell, t types.Type) Value {
	if c.v == nil {
		c.v = m.zero(t)
		if c.owner != 0 {
			switch x := c.v.(type) {
			case *StructV:
				for i := range x.f {
					x.f[i].owner = c.owner
				}
			case *ArrayV:
				for i := range x.c {
					x.c[i].owner = c.owner
				}
			}
		} else if m.curOwner != 0 { // shared cell lazily materialised by a thread
			switch x := c.v.(type) {
			case *StructV:
				for i := range x.f {
					x.f[i].owner = 0
				}
			case *ArrayV:
				for i := range x.c {
					x.c[i].owner = 0
				}
			}
		}
	}
	return c.v
}

// copyVal makes an independent copy of an aggregate value.
func (m *Machine) copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: m.newCells(len(x.f))}
		for i := range x.f {
			if x.f[i].v != nil {
				n.f[i].v = m.copyVal(x.f[i].v)
			}
		}
		return n
	case *ArrayV:
		n := &ArrayV{c: m.newCells(len(x.c))}
		for i := range x.c {
			if x.c[i].v != nil {
				n.c[i].v = m.copyVal(x.c[i].v)
			}
		}
		return n
	}
	return v
}

// storeInto overwrites the content of a cell keeping interior addresses stable.
func (m *Machine) storeInto(c *Cell, v Value) {
	switch x := v.(type) {
	case *StructV:
		if old, ok := c.v.(*StructV); ok && len(old.f) == len(x.f) {
			for i := range x.f {
				m.storeInto(&old.f[i], x.f[i].v)
			}
			return
		}
		c.v = m.copyVal(x)
		if c.owner != m.curOwner {
			setOwner(c.v, c.owner)
		}
		return
	case *ArrayV:
		if old, ok := c.v.(*ArrayV); ok && len(old.c) == len(x.c) {
			for i := range x.c {
				m.storeInto(&old.c[i], x.c[i].v)
			}
			return
		}
		c.v = m.copyVal(x)
		if c.owner != m.curOwner {
			setOwner(c.v, c.owner)
		}
		return
	case nil: // lazily zero
		switch old := c.v.(type) {
		case *StructV:
			for i := range old.f {
				m.storeInto(&old.f[i], nil)
			}
			return
		case *ArrayV:
			for i := range old.c {
				m.storeInto(&old.c[i], nil)
			}
			return
		}
	}
	c.v = v
}

func setOwner(v Value, o int32) {
	switch x := v.(type) {
	case *StructV:
		for i := range x.f {
			x.f[i].owner = o
			setOwner(x.f[i].v, o)
		}
	case *ArrayV:
		for i := range x.c {
			x.c[i].owner = o
			setOwner(x.c[i].v, o)
		}
	}
}

func (m *Machine) constInt(n int64) *Term { return m.c.BV(uint64(n), 64) }

// equality term of two values of static type t
func (m *Machine) eq(t types.Type, a, b Value) *Term {
	switch u := under(t).(type) {
	case *types.Struct:
		x, y := a.(*StructV), b.(*StructV)
		r := m.c.T
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			ft := u.Field(i).Type()
			r = m.c.And(r, m.eq(ft, m.get(&x.f[i], ft), m.get(&y.f[i], ft)))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(*ArrayV), b.(*ArrayV)
		r := m.c.T
		for i := range x.c {
			r = m.c.And(r, m.eq(u.Elem(), m.get(&x.c[i], u.Elem()), m.get(&y.c[i], u.Elem())))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Interface:
		x, xo := a.(IfaceV)
		y, yo := b.(IfaceV)
		if xo && yo {
			if x.t == nil || y.t == nil {
				return m.c.Bool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return m.c.F
			}
			if !types.Comparable(x.t) {
				m.goPanic("runtime error: comparing uncomparable type " + x.t.String())
			}
			return m.eq(x.t, x.v, y.v)
		}
	}
	return m.eqPrim(a, b)
}

func (m *Machine) eqPrim(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return m.c.Eq(x, b.(*Term))
	case float64:
		return m.c.Bool(x == b.(float64))
	case *Str:
		return m.strEq(x, b.(*Str))
	case *Cell:
		if y, ok := b.(*Cell); ok {
			return m.c.Bool(x == y)
		}
		if y, ok := b.(*SymPtr); ok {
			return m.eqPrim(y, x)
		}
	case *SymPtr:
		y, ok := b.(*Cell)
		if ok && y == nil {
			return m.c.F
		}
	case *MapV:
		return m.c.Bool(x == b.(*MapV))
	case *ChanV:
		return m.c.Bool(x == b.(*ChanV))
	case *Closure:
		y := b.(*Closure)
		if x != nil && y != nil {
			m.goPanic("comparing func")
		}
		return m.c.Bool(x == y)
	case SliceV:
		y := b.(SliceV)
		return m.c.Bool(x.c == nil && y.c == nil)
	case UPtr:
		y := b.(UPtr)
		return m.c.Bool(x.c == y.c && x.p == y.p)
	case IfaceV:
		return m.eq(types.NewInterfaceType(nil, nil), a, b)
	}
	m.unsupported(fmt.Sprintf("equality %T %T", a, b))
	return nil
}

func (m *Machine) strEq(a, b *Str) *Term {
	if a.conc() && b.conc() {
		return m.c.Bool(a.s == b.s)
	}
	x, y := a.elems(m.c), b.elems(m.c)
	return m.elemsEq(x, y)
}

func (m *Machine) elemsEq(x, y []SElem) *Term {
	r := m.c.T
	for len(x) > 0 && len(y) > 0 {
		if x[0].dec != nil && y[0].dec != nil {
			// the chunks are equal as strings iff the integers are equal, provided what follows
			// cannot be confused with further digits
			if !delimited(x[1:]) || !delimited(y[1:]) {
				m.unsupported("comparison of strings with adjacent decimal chunks")
			}
			r = m.c.And(r, m.c.Eq(x[0].dec, y[0].dec))
			x, y = x[1:], y[1:]
			continue
		}
		if x[0].dec != nil || y[0].dec != nil {
			d, o := x, y
			if y[0].dec != nil {
				d, o = y, x
			}
			// decimal chunk against bytes: concrete digits can be parsed
			j := 0
			neg := false
			var v uint64
			digits := 0
			for j < len(o) && o[j].b != nil && o[j].b.isC() {
				ch := byte(o[j].b.val)
				if ch == '-' && j == 0 {
					neg = true
				} else if ch >= '0' && ch <= '9' {
					v = v*10 + uint64(ch-'0')
					digits++
				} else {
					break
				}
				j++
			}
			if j < len(o) && o[j].b != nil && !o[j].b.isC() {
				m.unsupported("comparison of decimal chunk with symbolic byte")
			}
			if digits == 0 {
				return m.c.F
			}
			if neg {
				v = -v
			}
			r = m.c.And(r, m.c.Eq(d[0].dec, m.c.BV(v, 64)))
			x, y = d[1:], o[j:]
			continue
		}
		r = m.c.And(r, m.c.Eq(x[0].b, y[0].b))
		if r.isFalse() {
			return r
		}
		x, y = x[1:], y[1:]
	}
	if len(x) > 0 || len(y) > 0 {
		return m.c.F
	}
	return r
}

func delimited(x []SElem) bool {
	if len(x) == 0 {
		return true
	}
	if x[0].b == nil || !x[0].b.isC() {
		return false
	}
	ch := byte(x[0].b.val)
	return ch < '0' || ch > '9'
}

// concrete canonical key of a value, or ok=false if symbolic
func (m *Machine) concKey(t types.Type, v Value, sb *strings.Builder) bool {
	switch u := under(t).(type) {
	case *types.Struct:
		x := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			if !m.concKey(u.Field(i).Type(), m.get(&x.f[i], u.Field(i).Type()), sb) {
				return false
			}
			sb.WriteByte(0)
		}
		return true
	case *types.Array:
		x := v.(*ArrayV)
		for i := range x.c {
			if !m.concKey(u.Elem(), m.get(&x.c[i], u.Elem()), sb) {
				return false
			}
			sb.WriteByte(0)
		}
		return true
	case *types.Interface:
		x := v.(IfaceV)
		if x.t == nil {
			sb.WriteString("nil")
			return true
		}
		sb.WriteString(x.t.String())
		sb.WriteByte(1)
		return m.concKey(x.t, x.v, sb)
	}
	switch x := v.(type) {
	case *Term:
		if !x.isC() {
			return false
		}
		fmt.Fprintf(sb, "%d", x.val)
		return true
	case *Str:
		if !x.conc() {
			return false
		}
		fmt.Fprintf(sb, "%q", x.s)
		return true
	case float64:
		fmt.Fprintf(sb, "%v", x)
		return true
	case *Cell, *ChanV, *MapV:
		fmt.Fprintf(sb, "%p", x)
		return true
	}
	m.unsupported(fmt.Sprintf("map key %T", v))
	return false
}

func (m *Machine) newMap() *MapV {
	m.mapSeq++
	return &MapV{idx: map[string]*MapEnt{}, id: m.mapSeq}
}

func (m *Machine) mapFind(mv *MapV, kt types.Type, k Value) *MapEnt {
	if mv == nil {
		return nil
	}
	var sb strings.Builder
	conc := m.concKey(kt, k, &sb)
	if conc {
		if e := mv.idx[sb.String()]; e != nil {
			return e
		}
		if mv.sym == 0 {
			return nil
		}
	}
	for _, e := range mv.ents {
		if e.del {
			continue
		}
		if m.branch(m.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mv *MapV, kt types.Type, k, v Value) {
	if e := m.mapFind(mv, kt, k); e != nil {
		m.storeInto(e.c, v)
		return
	}
	e := &MapEnt{k: m.copyVal(k), c: m.newCell(nil)}
	e.c.v = m.copyVal(v)
	var sb strings.Builder
	if m.concKey(kt, k, &sb) {
		mv.idx[sb.String()] = e
	} else {
		mv.sym++
	}
	mv.ents = append(mv.ents, e)
	mv.n++
}

func (m *Machine) mapDelete(mv *MapV, kt types.Type, k Value) {
	e := m.mapFind(mv, kt, k)
	if e == nil {
		return
	}
	m.mapDelEnt(mv, kt, e)
}

func (m *Machine) mapDelEnt(mv *MapV, kt types.Type, e *MapEnt) {
	e.del = true
	mv.n--
	var sb strings.Builder
	if m.concKey(kt, e.k, &sb) {
		delete(mv.idx, sb.String())
	} else {
		mv.sym--
	}
	for i, x := range mv.ents {
		if x == e {
			mv.ents = append(append([]*MapEnt{}, mv.ents[:i]...), mv.ents[i+1:]...)
			break
		}
	}
}
