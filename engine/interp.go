package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *Frame) set(v ssa.Value, x Value) { fr.env[fr.fi.reg[v]] = x }

func (fr *Frame) val(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.m.constVal(x)
	case *ssa.Global:
		return fr.m.global(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.fi.reg[v]
	if !ok {
		panic("no register for " + v.Name() + " in " + fr.fn.String())
	}
	r := fr.env[i]
	if r == nil {
		if t, ok := under(v.Type()).(*types.Basic); ok && t.Kind() == types.UntypedNil {
			return nil
		}
		panic(fmt.Sprintf("unset register %s in %s", v.Name(), fr.fn))
	}
	if t, ok := r.(*Term); ok && t.op != OConst && len(fr.m.subst) > 0 {
		if c, ok := fr.m.subst[t.id]; ok {
			return c
		}
	}
	return r
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		m.unsupported("const of type param")
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w, s, ok := intInfo(t); ok {
			if s {
				v, exact := constant.Int64Val(constant.ToInt(c.Value))
				if !exact {
					u, _ := constant.Uint64Val(constant.ToInt(c.Value))
					return m.c.BV(u, w)
				}
				return m.c.BV(uint64(v), w)
			}
			v, exact := constant.Uint64Val(constant.ToInt(c.Value))
			if !exact {
				i, _ := constant.Int64Val(constant.ToInt(c.Value))
				return m.c.BV(uint64(i), w)
			}
			return m.c.BV(v, w)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.c.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return S(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return S(string(rune(i)))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if u.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case u.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	m.unsupported("constant " + c.String())
	return nil
}

// global returns the cell of a package-level variable, running the package's
// initialiser (not its imports') on first access.
func (m *Machine) global(g *ssa.Global) *Cell {
	if c, ok := m.globals[g]; ok && (c.v != nil || g.Pkg == nil || m.needInit(g.Pkg) || m.lazied[g]) {
		return c
	}
	p := g.Pkg
	if p != nil && !m.inited[p] {
		m.inited[p] = true
		save := m.curOwner
		m.curOwner = 0
		for _, mem := range p.Members {
			if gg, ok := mem.(*ssa.Global); ok {
				m.globals[gg] = &Cell{}
			}
		}
		if m.needInit(p) {
			if f := p.Func("init"); f != nil {
				m.runInit(f)
			}
		}
		m.curOwner = save
	}
	c := m.globals[g]
	if c == nil {
		c = &Cell{}
		m.globals[g] = c
	}
	if c.v == nil && g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Err") {
		if p := m.P.pkgs["io/fs"]; p != nil && p.Var(g.Name()) != nil {
			c.v = m.loadCell(m.global(p.Var(g.Name())), deref(g.Type()))
		}
	}
	if c.v == nil && !m.lazied[g] && !m.needInit(g.Pkg) {
		m.lazied[g] = true
		if g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
			c.v = SliceV{c: []Cell{{v: S("verif")}}}
		} else {
			m.lazyGlobal(g, c)
		}
	}
	return c
}

func (m *Machine) needInit(p *ssa.Package) bool {
	switch p.Pkg.Path() {
	case "runtime", "internal/cpu", "internal/godebug", "os", "syscall", "net", "internal/poll", "net/http", "crypto/tls", "reflect", "internal/syscall/unix":
		return false
	}
	return true
}

func (m *Machine) runInit(f *ssa.Function) {
	m.initing++
	m.call(m.cur.top, f, nil, nil)
	m.initing--
}

// load from a pointer
func (m *Machine) load(p Value, t types.Type) Value {
	switch x := p.(type) {
	case *Cell:
		if x == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return m.loadCell(x, t)
	case *SymPtr:
		return m.loadSym(x, t)
	case UPtr:
		if x.c == nil {
			m.goPanic("nil unsafe pointer dereference")
		}
		return m.loadCell(x.c, t)
	}
	m.unsupported(fmt.Sprintf("load via %T", p))
	return nil
}

func (m *Machine) loadCell(c *Cell, t types.Type) Value {
	if m.po != nil && m.po.active() && c.owner == 0 {
		return m.po.read(c, t, false)
	}
	if m.raceOn {
		m.raceRead(c)
	}
	v := m.get(c, t)
	switch v.(type) {
	case *StructV, *ArrayV:
		return m.copyVal(v)
	}
	return v
}

func (m *Machine) symCells(p *SymPtr, elem types.Type) []*Cell {
	var r []*Cell
	for i := range p.base {
		c := &p.base[i]
		r = append(r, c)
	}
	return r
}

func (m *Machine) loadSym(p *SymPtr, t types.Type) Value {
	if m.po != nil && m.po.active() {
		if r, ok := m.po.readSym(p, t); ok {
			return r
		}
	}
	cells := m.symTargets(p, t)
	if mergeable(t) {
		var acc *Term
		for i := len(cells) - 1; i >= 0; i-- {
			v := m.loadCell(cells[i], t).(*Term)
			if acc == nil {
				acc = v
			} else {
				acc = m.c.Ite(m.c.Eq(p.idx, m.c.BV(uint64(i), p.idx.w)), v, acc)
			}
		}
		return acc
	}
	i := int(m.concretize(p.idx))
	return m.loadCell(cells[i], t)
}

// symTargets resolves the field path below each element.
func (m *Machine) symTargets(p *SymPtr, leaf types.Type) []*Cell {
	r := make([]*Cell, len(p.base))
	for i := range p.base {
		c := &p.base[i]
		for _, f := range p.path {
			sv, ok := c.v.(*StructV)
			if !ok {
				m.unsupported("symbolic pointer into unmaterialised struct")
			}
			c = &sv.f[f]
		}
		r[i] = c
	}
	return r
}

func (m *Machine) logUndo(c *Cell) {
	if m.nUndo {
		m.undo = append(m.undo, undoRec{c, m.copyVal(c.v)})
	}
}

func (m *Machine) storeCell(c *Cell, v Value) {
	if m.po != nil && m.po.active() && c.owner == 0 {
		m.po.write(c, v, false)
		return
	}
	if m.raceOn {
		m.raceWrite(c)
	}
	m.logUndo(c)
	m.storeInto(c, v)
}

func (m *Machine) store(p Value, v Value) {
	switch x := p.(type) {
	case *Cell:
		if x == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		m.storeCell(x, v)
		return
	case *SymPtr:
		if m.po != nil && m.po.active() && m.po.writeSym(x, v) {
			return
		}
		cells := m.symTargets(x, nil)
		if t, ok := v.(*Term); ok {
			for i, c := range cells {
				if c.v == nil {
					c.v = m.c.BV(0, t.w)
					if t.w == 0 {
						c.v = m.c.F
					}
				}
				old := c.v.(*Term)
				m.storeCell(c, m.c.Ite(m.c.Eq(x.idx, m.c.BV(uint64(i), x.idx.w)), t, old))
			}
			return
		}
		i := int(m.concretize(x.idx))
		m.storeCell(cells[i], v)
		return
	case UPtr:
		m.storeCell(x.c, v)
		return
	}
	m.unsupported(fmt.Sprintf("store via %T", p))
}

func (m *Machine) fieldAddr(p Value, i int, st types.Type) Value {
	switch x := p.(type) {
	case *Cell:
		if x == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		sv, ok := m.get(x, st).(*StructV)
		if !ok {
			m.unsupported(fmt.Sprintf("fieldAddr into %T", x.v))
		}
		return &sv.f[i]
	case *SymPtr:
		for k := range x.base { // materialise
			c := &x.base[k]
			ok := true
			for _, f := range x.path {
				sv, is := c.v.(*StructV)
				if !is {
					ok = false
					break
				}
				c = &sv.f[f]
			}
			if ok {
				m.get(c, st)
			}
		}
		return &SymPtr{base: x.base, idx: x.idx, path: append(append([]int{}, x.path...), i)}
	}
	m.unsupported(fmt.Sprintf("fieldAddr of %T", p))
	return nil
}

func (m *Machine) indexCheck(idx *Term, n int) {
	ok := m.c.Cmp(OUlt, m.c.Resize(idx, 64, true), m.c.BV(uint64(n), 64))
	if !m.branch(ok) {
		m.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

func (m *Machine) elemAddr(cells []Cell, idx *Term, it types.Type, elem types.Type) Value {
	_, sgn, _ := intInfo(it)
	i := m.c.Resize(idx, 64, sgn)
	m.indexCheck(i, len(cells))
	if i.isC() {
		return &cells[i.val]
	}
	if len(cells) == 1 {
		return &cells[0]
	}
	if len(cells) > 256 || m.opts.ConcIdx {
		return &cells[m.concretize(i)]
	}
	if mergeable(elem) || isStruct(elem) {
		for k := range cells {
			m.get(&cells[k], elem)
		}
		return &SymPtr{base: cells, idx: i}
	}
	return &cells[m.concretize(i)]
}

func isStruct(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok
}

// ---- calls ----

func (m *Machine) callValue(fr *Frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
		}
		if f.nat != nil {
			return f.nat(fr, args)
		}
		return m.call(fr, f.fn, args, f.free)
	case *ssa.Function:
		return m.call(fr, f, args, nil)
	}
	m.unsupported(fmt.Sprintf("call of %T", fv))
	return nil
}

func (m *Machine) call(caller *Frame, fn *ssa.Function, args []Value, free []Value) Value {
	if nat := m.intrinsic(fn); nat != nil {
		th := m.cur
		fr := &Frame{m: m, th: th, fn: fn, caller: caller}
		if caller != nil {
			fr.pos = caller.pos
		}
		return nat(fr, args)
	}
	if m.initing > 0 && fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil && caller.fn.Pkg != fn.Pkg && caller.fn.Synthetic == "package initializer" {
		return TupleV(nil) // imported packages are initialised when one of their variables is first used
	}
	if mf := m.P.models[fn.String()]; mf != nil {
		if m.raceOn && strings.HasPrefix(fn.String(), "(*os.File).") { // an os.File synchronises its own calls
			m.raceOn = false
			defer func() { m.raceOn = true }()
		}
		fn = mf
	} else if fn.Name() == "NewWriterSize" && fn.String() == "bufio.NewWriterSize" {
		if n := args[1].(*Term); n.isC() && n.sval() > 1<<12 {
			args = []Value{args[0], m.constInt(1 << 12)} // large write buffers are modelled with 4 KiB
		}
	} else if fn.Origin() != nil && fn.Origin() != fn {
		if mf := m.P.models[fn.Origin().String()]; mf != nil {
			m.unsupported("generic model " + fn.String())
		}
	}
	if fn.Blocks == nil {
		m.unsupported("function without body: " + fn.String())
	}
	m.fns[fn] = true
	fi := m.P.finfo(fn)
	th := m.cur
	fr := &Frame{m: m, th: th, fn: fn, fi: fi, env: make([]Value, fi.n), caller: caller, block: fn.Blocks[0], free: free}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 400 {
		panic(pathEnd{endLimit, "call depth"})
	}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity mismatch calling %s: %d args", fn, len(args)))
	}
	for i, p := range fn.Params {
		fr.env[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.reg[p]] = free[i]
	}
	th.top = fr
	fr.runFrame()
	th.top = caller
	return fr.result
}

func (fr *Frame) runFrame() {
	m := fr.m
	for fr.block != nil {
		if p := fr.runBlocks(); p != nil {
			// panic in this frame: run defers
			fr.pan = p
			fr.th.top = fr
			fr.runDefers()
			if fr.pan != nil {
				panic(*fr.pan)
			}
			fr.block = fr.fn.Recover
			if fr.block == nil {
				// results are zero values (no named results)
				rt := fr.fn.Signature.Results()
				switch rt.Len() {
				case 0:
					fr.result = TupleV{}
				case 1:
					fr.result = m.zero(rt.At(0).Type())
				default:
					fr.result = m.zero(rt)
				}
			}
			continue
		}
	}
}

func (fr *Frame) runBlocks() (pan *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				pan = &tp
				return
			}
			panic(r)
		}
	}()
	fr.loop()
	return nil
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.pan = &tp
						return
					}
					panic(r)
				}
			}()
			fr.callDeferred(d)
		}()
	}
}

func (fr *Frame) callDeferred(d deferred) {
	fr.th.top = fr
	if d.b != nil {
		fr.builtin(d.b, d.args, nil, nil)
		return
	}
	cl, _ := d.fn.(*Closure)
	if cl != nil && cl.nat == nil {
		fr.m.call(fr, cl.fn, d.args, cl.free)
		return
	}
	fr.m.callValue(fr, d.fn, d.args)
}

func (fr *Frame) loop() {
	m := fr.m
	for {
		b := fr.block
		i := 0
		if fr.prev != nil {
			// phis, in parallel
			var vals [8]Value
			vs := vals[:0]
			n := 0
			for n < len(b.Instrs) {
				p, ok := b.Instrs[n].(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range b.Preds {
					if pr == fr.prev {
						vs = append(vs, fr.val(p.Edges[k]))
						break
					}
				}
				n++
			}
			for k := 0; k < n; k++ {
				fr.set(b.Instrs[k].(*ssa.Phi), vs[k])
			}
			i = n
		} else {
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		}
		fr.prev = b
	instrs:
		for ; i < len(b.Instrs); i++ {
			m.steps++
			if m.steps > m.stepCap {
				m.overLimit()
			}
			in := b.Instrs[i]
			if p := in.Pos(); p != token.NoPos {
				fr.pos = p
			}
			switch x := in.(type) {
			case *ssa.Jump:
				fr.block = b.Succs[0]
				break instrs
			case *ssa.If:
				c := fr.val(x.Cond).(*Term)
				if !c.isC() && !m.known[c.id] && !m.known[m.c.Not(c).id] && !m.opts.NoMerge {
					if rg := fr.fi.merge[b]; rg != nil {
						j := fr.evalRegion(rg, c)
						if j == nil {
							fr.block = nil
							return
						}
						fr.block = j
						fr.prev = nil // phis already assigned
						break instrs
					}
				}
				if m.branch(c) {
					fr.block = b.Succs[0]
				} else {
					fr.block = b.Succs[1]
				}
				break instrs
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					fr.result = TupleV{}
				case 1:
					fr.result = fr.val(x.Results[0])
				default:
					r := make(TupleV, len(x.Results))
					for k, y := range x.Results {
						r[k] = fr.val(y)
					}
					fr.result = r
				}
				fr.block = nil
				return
			case *ssa.Panic:
				v := fr.val(x.X)
				panic(targetPanic{v: v, msg: m.panicText(v)})
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.pan != nil {
					p := *fr.pan
					fr.pan = nil
					panic(p)
				}
			default:
				fr.instr(in)
			}
		}
	}
}

func (m *Machine) overLimit() {
	if m.limitIsV != "" {
		m.violation(m.limitIsV, nil)
		panic(pathEnd{endViolation, m.limitIsV})
	}
	panic(pathEnd{endLimit, "step budget"})
}

func (m *Machine) panicText(v Value) string {
	if i, ok := v.(IfaceV); ok && i.t != nil {
		if s, ok := i.v.(*Str); ok {
			return s.String()
		}
		return i.t.String()
	}
	return fmt.Sprintf("%T", v)
}

func (fr *Frame) instr(in ssa.Instruction) {
	m := fr.m
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.BinOp:
		fr.set(x, m.binop(x.Op, x.X.Type(), fr.val(x.X), fr.val(x.Y), x.Y.Type(), x.Type()))
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.Call:
		fr.set(x, fr.doCall(&x.Call, x))
	case *ssa.ChangeInterface:
		fr.set(x, fr.val(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.val(x.X))
	case *ssa.Convert:
		fr.set(x, m.convert(fr.val(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(x, m.convert(fr.val(x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		s := fr.val(x.X).(SliceV)
		n := under(deref(x.Type())).(*types.Array).Len()
		if int64(len(s.c)) < n {
			m.goPanic("runtime error: cannot convert slice to array pointer")
		}
		fr.set(x, &Cell{v: &ArrayV{c: s.c[:n:n]}})
	case *ssa.MakeInterface:
		fr.set(x, IfaceV{t: x.X.Type(), v: fr.val(x.X)})
	case *ssa.Extract:
		fr.set(x, fr.val(x.Tuple).(TupleV)[x.Index])
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.Alloc:
		fr.set(x, m.newCell(nil))
		if !x.Heap { // reused stack slot: fresh cell each time is equivalent
		}
	case *ssa.MakeSlice:
		n := m.toInt(m.c.Resize(fr.val(x.Len).(*Term), 64, true))
		cp := m.toInt(m.c.Resize(fr.val(x.Cap).(*Term), 64, true))
		if n < 0 || cp < n {
			m.goPanic("runtime error: makeslice: len out of range")
		}
		if n == 0 && cp > 1<<14 {
			cp = 1 << 12 // spare capacity only
		}
		if cp > 1<<20 {
			panic(pathEnd{endLimit, "huge make"})
		}
		fr.set(x, SliceV{c: m.newCells(cp)[:n]})
		if cp == 0 {
			fr.set(x, SliceV{c: make([]Cell, 0)})
		}
	case *ssa.MakeMap:
		fr.set(x, m.newMap())
	case *ssa.MakeChan:
		cp := m.toInt(m.c.Resize(fr.val(x.Size).(*Term), 64, true))
		if m.opts.ChanCap > 0 && cp >= 64 {
			cp = m.opts.ChanCap
		}
		fr.set(x, &ChanV{cap: cp, id: m.nextChanID()})
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.free = append(cl.free, fr.val(b))
		}
		fr.set(x, cl)
	case *ssa.FieldAddr:
		fr.set(x, m.fieldAddr(fr.val(x.X), x.Field, deref(x.X.Type())))
	case *ssa.Field:
		sv := fr.val(x.X).(*StructV)
		fr.set(x, m.copyVal(m.get(&sv.f[x.Field], x.Type())))
	case *ssa.IndexAddr:
		idx := fr.val(x.Index).(*Term)
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := fr.val(x.X).(SliceV)
			fr.set(x, m.elemAddr(s.c, idx, x.Index.Type(), u.Elem()))
		case *types.Pointer:
			p, ok := fr.val(x.X).(*Cell)
			if !ok {
				m.unsupported("index of array via symbolic pointer")
			}
			if p == nil {
				m.goPanic("runtime error: nil pointer dereference")
			}
			at := under(u.Elem()).(*types.Array)
			av := m.get(p, u.Elem()).(*ArrayV)
			fr.set(x, m.elemAddr(av.c, idx, x.Index.Type(), at.Elem()))
		default:
			m.unsupported("IndexAddr " + u.String())
		}
	case *ssa.Index:
		idx := fr.val(x.Index).(*Term)
		switch v := fr.val(x.X).(type) {
		case *ArrayV:
			p := m.elemAddr(v.c, idx, x.Index.Type(), x.Type())
			fr.set(x, m.load(p, x.Type()))
		case *Str:
			fr.set(x, m.strIndex(v, idx, x.Index.Type()))
		default:
			m.unsupported(fmt.Sprintf("Index of %T", v))
		}
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MapUpdate:
		mv := fr.val(x.Map).(*MapV)
		if mv == nil {
			m.goPanic("assignment to entry in nil map")
		}
		if m.raceOn {
			m.raceMap(mv, true)
		}
		if m.po != nil && m.po.active() {
			m.unsupported("map update in PO mode")
		}
		m.mapSet(mv, under(x.Map.Type()).(*types.Map).Key(), fr.val(x.Key), fr.val(x.Value))
	case *ssa.Range:
		switch v := fr.val(x.X).(type) {
		case *MapV:
			if m.raceOn && v != nil {
				m.raceMap(v, false)
			}
			it := &RangeIter{m: v}
			if v != nil {
				it.ents = append(it.ents, v.ents...)
				if m.permMaps && len(it.ents) > 1 && len(it.ents) <= 3 {
					m.permute(it)
				}
			}
			fr.set(x, it)
		case *Str:
			fr.set(x, &RangeIter{s: v})
		}
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	case *ssa.Store:
		m.store(fr.val(x.Addr), fr.val(x.Val))
	case *ssa.Go:
		fn, args := fr.prepCall(&x.Call)
		m.spawn(fr, fn, args)
	case *ssa.Defer:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			var args []Value
			for _, a := range x.Call.Args {
				args = append(args, fr.val(a))
			}
			fr.defers = append(fr.defers, deferred{b: b, args: args})
			return
		}
		fn, args := fr.prepCall(&x.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.Send:
		m.chanSend(fr.val(x.Chan).(*ChanV), fr.val(x.X))
	case *ssa.Select:
		fr.set(x, fr.selectStmt(x))
	default:
		m.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

func (m *Machine) permute(it *RangeIter) {
	n := len(it.ents)
	for i := 0; i < n-1; i++ {
		m.envDep = m.envDep || n-i > 1
		j := i + m.choose(n-i)
		it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
	}
}

func (fr *Frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	m := fr.m
	var args []Value
	if c.IsInvoke() {
		rv := fr.val(c.Value).(IfaceV)
		if rv.t == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference (nil interface)")
		}
		f := m.findMethod(rv.t, c.Method)
		args = append(args, rv.v)
		for _, a := range c.Args {
			args = append(args, fr.val(a))
		}
		if nv, ok := rv.v.(*NativeObj); ok {
			name := c.Method.Name()
			return &Closure{nat: func(fr *Frame, args []Value) Value { return nv.call(fr, name, args[1:]) }, name: name}, args
		}
		return &Closure{fn: f}, args
	}
	fv := fr.val(c.Value)
	for _, a := range c.Args {
		args = append(args, fr.val(a))
	}
	return fv, args
}

// NativeObj is a host-implemented object behind an interface.
type NativeObj struct {
	name string
	call func(fr *Frame, method string, args []Value) Value
	data interface{}
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	f := m.P.method(t, meth.Pkg(), meth.Name())
	if f == nil {
		if _, ok := t.(*types.Named); ok && strings.HasPrefix(t.String(), "native.") {
			return nil
		}
		m.unsupported("no method " + meth.Name() + " on " + t.String())
	}
	return f
}

func (fr *Frame) doCall(c *ssa.CallCommon, site *ssa.Call) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range c.Args {
			args = append(args, fr.val(a))
		}
		return fr.builtin(b, args, c.Args, site)
	}
	fn, args := fr.prepCall(c)
	r := fr.m.callValue(fr, fn, args)
	fr.th.top = fr
	if r == nil {
		r = TupleV{}
	}
	return r
}

func (fr *Frame) unop(x *ssa.UnOp) Value {
	m := fr.m
	v := fr.val(x.X)
	switch x.Op {
	case token.MUL:
		return m.load(v, x.Type())
	case token.NOT:
		return m.c.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(float64); ok {
			return -f
		}
		return m.c.Neg(v.(*Term))
	case token.XOR:
		return m.c.BNot(v.(*Term))
	case token.ARROW:
		val, ok := m.chanRecv(v.(*ChanV), under(x.X.Type()).(*types.Chan).Elem())
		if x.CommaOk {
			return TupleV{val, ok}
		}
		return val
	}
	m.unsupported("unop " + x.Op.String())
	return nil
}

func (m *Machine) binop(op token.Token, t types.Type, a, b Value, bt, rt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eq(t, a, b)
	case token.NEQ:
		return m.c.Not(m.eq(t, a, b))
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			m.unsupported(fmt.Sprintf("binop %s %T", op, b))
		}
		w, sgn, isInt := intInfo(t)
		if !isInt {
			switch op {
			case token.AND, token.LAND:
				return m.c.And(x, y)
			case token.OR, token.LOR:
				return m.c.Or(x, y)
			}
			m.unsupported("bool binop " + op.String())
		}
		switch op {
		case token.ADD:
			return m.c.Bin(OAdd, x, y)
		case token.SUB:
			return m.c.Bin(OSub, x, y)
		case token.MUL:
			return m.c.Bin(OMul, x, y)
		case token.QUO, token.REM:
			if !m.branch(m.c.Not(m.c.Eq(y, m.c.BV(0, w)))) {
				m.goPanic("runtime error: integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && sgn:
				o = OSDiv
			case op == token.REM && sgn:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return m.c.Bin(o, x, y)
		case token.AND:
			return m.c.Bin(OBAnd, x, y)
		case token.OR:
			return m.c.Bin(OBOr, x, y)
		case token.XOR:
			return m.c.Bin(OBXor, x, y)
		case token.AND_NOT:
			return m.c.Bin(OBAnd, x, m.c.BNot(y))
		case token.SHL, token.SHR:
			wy, sy, _ := intInfo(bt)
			if sy {
				if !m.branch(m.c.Cmp(OSle, m.c.BV(0, wy), y)) {
					m.goPanic("runtime error: negative shift amount")
				}
			}
			// clamp the shift count to the width of x
			var k *Term
			if wy > w {
				big := m.c.Cmp(OUle, m.c.BV(uint64(w), wy), y)
				k = m.c.Ite(big, m.c.BV(uint64(w), w), m.c.Extract(y, w-1, 0))
			} else {
				k = m.c.Zext(y, w)
			}
			if op == token.SHL {
				return m.c.Bin(OShl, x, k)
			}
			if sgn {
				return m.c.Bin(OAshr, x, k)
			}
			return m.c.Bin(OLshr, x, k)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case strict && sgn:
				return m.c.Cmp(OSlt, x, y)
			case strict:
				return m.c.Cmp(OUlt, x, y)
			case sgn:
				return m.c.Cmp(OSle, x, y)
			}
			return m.c.Cmp(OUle, x, y)
		}
	case float64:
		y, ok := b.(float64)
		if !ok {
			m.unsupported("float binop with symbolic operand")
		}
		r := 0.0
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return m.c.Bool(x < y)
		case token.LEQ:
			return m.c.Bool(x <= y)
		case token.GTR:
			return m.c.Bool(x > y)
		case token.GEQ:
			return m.c.Bool(x >= y)
		}
		if bb, ok := under(t).(*types.Basic); ok && bb.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			return concatStr(m.c, x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.c.Not(m.strLess(y, x))
		case token.GEQ:
			return m.c.Not(m.strLess(x, y))
		}
	}
	m.unsupported(fmt.Sprintf("binop %s on %T", op, a))
	return nil
}

func (m *Machine) strLess(a, b *Str) *Term {
	if a.conc() && b.conc() {
		return m.c.Bool(a.s < b.s)
	}
	if a.hasDec() || b.hasDec() {
		m.unsupported("ordering of strings with decimal chunks")
	}
	x, y := a.elems(m.c), b.elems(m.c)
	n := min(len(x), len(y))
	r := m.c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.c.Or(m.c.Cmp(OUlt, x[i].b, y[i].b), m.c.And(m.c.Eq(x[i].b, y[i].b), r))
	}
	return r
}

func (m *Machine) strLen(s *Str) *Term {
	if s.conc() {
		return m.constInt(int64(len(s.s)))
	}
	if s.hasDec() {
		m.unsupported("length of string with decimal chunk")
	}
	return m.constInt(int64(len(s.el)))
}

func (m *Machine) strIndex(s *Str, idx *Term, it types.Type) Value {
	if s.hasDec() {
		m.unsupported("index of string with decimal chunk")
	}
	_, sgn, _ := intInfo(it)
	i := m.c.Resize(idx, 64, sgn)
	n := len(s.s)
	if !s.conc() {
		n = len(s.el)
	}
	m.indexCheck(i, n)
	if i.isC() {
		if s.conc() {
			return m.c.BV(uint64(s.s[i.val]), 8)
		}
		return s.el[i.val].b
	}
	el := s.elems(m.c)
	acc := el[n-1].b
	for k := n - 2; k >= 0; k-- {
		acc = m.c.Ite(m.c.Eq(i, m.c.BV(uint64(k), 64)), el[k].b, acc)
	}
	return acc
}

func (fr *Frame) slice(x *ssa.Slice) Value {
	m := fr.m
	opt := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		_, sgn, _ := intInfo(v.Type())
		return m.toInt(m.c.Resize(fr.val(v).(*Term), 64, sgn))
	}
	xv := fr.val(x.X)
	if s, ok := xv.(*Str); ok {
		if s.hasDec() {
			m.unsupported("slicing string with decimal chunk")
		}
		n := len(s.s)
		if !s.conc() {
			n = len(s.el)
		}
		lo, hi := opt(x.Low, 0), opt(x.High, n)
		if lo < 0 || hi < lo || hi > n {
			m.goPanic("runtime error: slice bounds out of range")
		}
		if s.conc() {
			return S(s.s[lo:hi])
		}
		return normStr(m.c, s.el[lo:hi])
	}
	var c []Cell
	isnil := false
	switch v := xv.(type) {
	case SliceV:
		c = v.c
		isnil = c == nil
	case *Cell:
		if v == nil {
			m.goPanic("nil pointer dereference")
		}
		c = m.get(v, deref(x.X.Type())).(*ArrayV).c
	default:
		m.unsupported(fmt.Sprintf("slice of %T", xv))
	}
	lo := opt(x.Low, 0)
	hi := opt(x.High, len(c))
	mx := opt(x.Max, cap(c))
	if lo < 0 || hi < lo || mx < hi || mx > cap(c) {
		m.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] cap %d", lo, hi, mx, cap(c)))
	}
	if isnil {
		return SliceV{}
	}
	return SliceV{c: c[lo:hi:mx]}
}

func (fr *Frame) lookup(x *ssa.Lookup) Value {
	m := fr.m
	switch v := fr.val(x.X).(type) {
	case *Str:
		return m.strIndex(v, fr.val(x.Index).(*Term), x.Index.Type())
	case *MapV:
		if m.raceOn && v != nil {
			m.raceMap(v, false)
		}
		mt := under(x.X.Type()).(*types.Map)
		if m.po != nil && m.po.active() {
			m.unsupported("map lookup in PO mode")
		}
		e := m.mapFind(v, mt.Key(), fr.val(x.Index))
		var r Value
		if e != nil {
			r = m.copyVal(m.get(e.c, mt.Elem()))
		} else {
			r = m.zero(mt.Elem())
		}
		if x.CommaOk {
			return TupleV{r, m.c.Bool(e != nil)}
		}
		return r
	}
	m.unsupported("lookup")
	return nil
}

func (fr *Frame) next(x *ssa.Next) Value {
	m := fr.m
	it := fr.val(x.Iter).(*RangeIter)
	if x.IsString {
		s := it.s
		if s.hasDec() {
			m.unsupported("range over string with decimal chunk")
		}
		if s.conc() {
			if it.i >= len(s.s) {
				return TupleV{m.c.F, m.constInt(0), m.c.BV(0, 32)}
			}
			for j, r := range s.s[it.i:] {
				_ = j
				n := len(string(r))
				if r == 0xFFFD {
					// width may be 1 for invalid bytes
					n = runeWidth(s.s[it.i:])
				}
				p := it.i
				it.i += n
				return TupleV{m.c.T, m.constInt(int64(p)), m.c.BV(uint64(uint32(r)), 32)}
			}
		}
		if it.i >= len(s.el) {
			return TupleV{m.c.F, m.constInt(0), m.c.BV(0, 32)}
		}
		b := s.el[it.i].b
		if !m.branch(m.c.Cmp(OUlt, b, m.c.BV(0x80, 8))) {
			m.unsupported("range over symbolic non-ASCII string")
		}
		p := it.i
		it.i++
		return TupleV{m.c.T, m.constInt(int64(p)), m.c.Zext(b, 32)}
	}
	tt := x.Type().(*types.Tuple)
	zk, zv := Value(TupleV{}), Value(TupleV{})
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.del {
			continue
		}
		var k, v Value = zk, zv
		k = e.k
		mt := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
		v = m.copyVal(m.get(e.c, mt.Elem()))
		return TupleV{m.c.T, k, v}
	}
	_ = tt
	mt := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
	return TupleV{m.c.F, m.zero(mt.Key()), m.zero(mt.Elem())}
}

func runeWidth(s string) int {
	if len(s) >= 3 && s[:3] == "\uFFFD" {
		return 3
	}
	return 1
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert) Value {
	m := fr.m
	v := fr.val(x.X).(IfaceV)
	ok := false
	var r Value
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		if v.t != nil && types.Implements(v.t, it) {
			ok = true
			r = v
		}
		if nv, isN := v.v.(*NativeObj); isN && nv != nil && v.t != nil {
			_ = nv
		}
	} else if v.t != nil && types.Identical(v.t, x.AssertedType) {
		ok = true
		r = m.copyVal(v.v)
	}
	if !ok {
		if !x.CommaOk {
			m.goPanic("interface conversion: not " + x.AssertedType.String())
		}
		r = m.zero(x.AssertedType)
	}
	if x.CommaOk {
		return TupleV{r, m.c.Bool(ok)}
	}
	return r
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	if tw, _, ok := intInfo(to); ok {
		if _, fs, ok2 := intInfo(from); ok2 {
			return m.c.Resize(v.(*Term), tw, fs)
		}
		if f, ok2 := v.(float64); ok2 {
			_, ts, _ := intInfo(to)
			if ts {
				return m.c.BV(uint64(int64(f)), tw)
			}
			if f >= math.MaxUint64 { // implementation-defined; amd64 behaviour
				return m.c.BV(1<<63, tw)
			}
			return m.c.BV(uint64(f), tw)
		}
		if up, ok2 := v.(UPtr); ok2 {
			if up.c == nil && up.p == nil {
				return m.c.BV(0, tw)
			}
			m.unsupported("pointer to integer conversion")
		}
	}
	if isFloat(to) {
		f32 := tu.(*types.Basic).Kind() == types.Float32
		switch x := v.(type) {
		case float64:
			if f32 {
				return float64(float32(x))
			}
			return x
		case *Term:
			_, s, _ := intInfo(from)
			if !x.isC() {
				m.unsupported("symbolic integer to float")
			}
			var f float64
			if s {
				f = float64(x.sval())
			} else {
				f = float64(x.val)
			}
			if f32 {
				f = float64(float32(f))
			}
			return f
		}
	}
	if isString(to) {
		switch x := v.(type) {
		case *Str:
			return x
		case SliceV:
			if sl, ok := fu.(*types.Slice); ok {
				w, _, _ := intInfo(sl.Elem())
				if w == 8 {
					return m.bytesToStr(x)
				}
				var sb strings.Builder
				for i := range x.c {
					r := m.get(&x.c[i], sl.Elem()).(*Term)
					if !r.isC() {
						m.unsupported("symbolic rune slice to string")
					}
					sb.WriteRune(rune(r.sval()))
				}
				return S(sb.String())
			}
		case *Term:
			if !x.isC() {
				x = m.c.BV(m.concretize(x), x.w)
			}
			return S(string(rune(x.sval())))
		}
	}
	if sl, ok := tu.(*types.Slice); ok && isString(from) {
		s := v.(*Str)
		w, _, _ := intInfo(sl.Elem())
		if w == 8 {
			return m.strToBytes(s)
		}
		if !s.conc() {
			m.unsupported("symbolic string to runes")
		}
		rs := []rune(s.s)
		c := m.newCells(len(rs))
		for i, r := range rs {
			c[i].v = m.c.BV(uint64(uint32(r)), 32)
		}
		return SliceV{c: c}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		switch x := v.(type) {
		case *Cell:
			return UPtr{c: x}
		case UPtr:
			return x
		case *SymPtr:
			return UPtr{p: x}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if x, ok := v.(UPtr); ok {
			if x.p != nil {
				return x.p
			}
			return x.c
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	m.unsupported(fmt.Sprintf("convert %s -> %s (%T)", from, to, v))
	return nil
}

func (m *Machine) bytesToStr(s SliceV) *Str {
	el := make([]SElem, len(s.c))
	bt := types.Typ[types.Uint8]
	for i := range s.c {
		if d, ok := s.c[i].v.(decCell); ok {
			el[i] = SElem{dec: d.t}
			continue
		}
		t := m.loadCell(&s.c[i], bt).(*Term)
		el[i] = SElem{b: t}
	}
	return normStr(m.c, el)
}

// decCell holds an opaque decimal chunk inside a byte buffer.
type decCell struct{ t *Term }

func (m *Machine) strToBytes(s *Str) SliceV {
	el := s.elems(m.c)
	c := m.newCells(len(el))
	for i, e := range el {
		if e.dec != nil {
			c[i].v = decCell{e.dec}
		} else {
			c[i].v = e.b
		}
	}
	return SliceV{c: c}
}

func (fr *Frame) builtin(b *ssa.Builtin, args []Value, av []ssa.Value, site *ssa.Call) Value {
	m := fr.m
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return m.constInt(int64(len(x.c)))
		case *Str:
			return m.strLen(x)
		case *MapV:
			if x == nil {
				return m.constInt(0)
			}
			if m.raceOn {
				m.raceMap(x, false)
			}
			return m.constInt(int64(x.n))
		case *ChanV:
			if x == nil {
				return m.constInt(0)
			}
			return m.constInt(int64(len(x.buf)))
		case *ArrayV:
			return m.constInt(int64(len(x.c)))
		case *Cell:
			return m.constInt(under(deref(av[0].Type())).(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return m.constInt(int64(cap(x.c)))
		case *ChanV:
			if x == nil {
				return m.constInt(0)
			}
			return m.constInt(int64(x.cap))
		case *ArrayV:
			return m.constInt(int64(len(x.c)))
		}
	case "append":
		s := args[0].(SliceV)
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			el := under(av[1].Type()).(*types.Slice).Elem()
			for i := range y.c {
				if d, ok := y.c[i].v.(decCell); ok {
					add = append(add, d)
					continue
				}
				add = append(add, m.loadCell(&y.c[i], el))
			}
		case *Str:
			for _, e := range y.elems(m.c) {
				if e.dec != nil {
					add = append(add, decCell{e.dec})
				} else {
					add = append(add, e.b)
				}
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.c)
		var nc []Cell
		if n+len(add) <= cap(s.c) {
			nc = s.c[:n+len(add)]
		} else {
			ncap := n + len(add)
			if ncap < 2*n {
				ncap = 2 * n
			}
			el := under(av[0].Type()).(*types.Slice).Elem()
			nc = m.newCells(ncap)[:n+len(add)]
			for i := 0; i < n; i++ {
				if _, ok := s.c[i].v.(decCell); ok {
					nc[i].v = s.c[i].v
				} else {
					nc[i].v = m.copyVal(m.loadCell(&s.c[i], el))
				}
			}
		}
		for i, v := range add {
			if n+len(add) <= cap(s.c) {
				m.storeCell(&nc[n+i], v)
			} else {
				nc[n+i].v = m.copyVal(v)
			}
		}
		return SliceV{c: nc}
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			el := under(av[1].Type()).(*types.Slice).Elem()
			for i := 0; i < len(y.c) && i < len(d.c); i++ {
				if dc, ok := y.c[i].v.(decCell); ok {
					src = append(src, dc)
					continue
				}
				src = append(src, m.loadCell(&y.c[i], el))
			}
		case *Str:
			for i, e := range y.elems(m.c) {
				if i >= len(d.c) {
					break
				}
				if e.dec != nil {
					src = append(src, decCell{e.dec})
				} else {
					src = append(src, e.b)
				}
			}
		}
		for i, v := range src {
			m.storeCell(&d.c[i], v)
		}
		return m.constInt(int64(len(src)))
	case "delete":
		mv := args[0].(*MapV)
		if mv != nil {
			if m.raceOn {
				m.raceMap(mv, true)
			}
			m.mapDelete(mv, under(av[0].Type()).(*types.Map).Key(), args[1])
		}
		return TupleV{}
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.del = true
				}
				x.ents, x.idx, x.sym, x.n = nil, map[string]*MapEnt{}, 0, 0
			}
		case SliceV:
			for i := range x.c {
				m.storeCell(&x.c[i], nil)
			}
		}
		return TupleV{}
	case "close":
		m.chanClose(args[0].(*ChanV))
		return TupleV{}
	case "panic":
		panic(targetPanic{v: args[0], msg: m.panicText(args[0])})
	case "recover":
		f := fr.caller
		// fr is the deferred function's frame itself: its caller is the panicking frame
		if f != nil && f.pan != nil {
			v := f.pan.v
			f.pan = nil
			return v
		}
		return IfaceV{}
	case "print", "println":
		return TupleV{}
	case "min", "max":
		acc := args[0]
		for i := 1; i < len(args); i++ {
			t := av[0].Type()
			switch x := acc.(type) {
			case *Term:
				_, s, _ := intInfo(t)
				o := OUlt
				if s {
					o = OSlt
				}
				l := m.c.Cmp(o, x, args[i].(*Term))
				if b.Name() == "min" {
					acc = m.c.Ite(l, x, args[i].(*Term))
				} else {
					acc = m.c.Ite(l, args[i].(*Term), x)
				}
			case float64:
				if b.Name() == "min" {
					acc = math.Min(x, args[i].(float64))
				} else {
					acc = math.Max(x, args[i].(float64))
				}
			default:
				m.unsupported("min/max")
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			m.goPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := m.toInt(args[1])
		if n == 0 {
			return S("")
		}
		if ba, ok := args[0].(*Cell); ok {
			if cs, ok := m.W.backing(ba, n); ok {
				return m.bytesToStr(SliceV{c: cs})
			}
		}
	case "SliceData":
		s := args[0].(SliceV)
		if cap(s.c) == 0 {
			return (*Cell)(nil)
		}
		f := &s.c[:1][0]
		m.W.noteBacking(f, s.c)
		return f
	case "StringData":
		s := args[0].(*Str)
		b := m.strToBytes(s)
		if len(b.c) == 0 {
			return (*Cell)(nil)
		}
		m.W.noteBacking(&b.c[0], b.c)
		return &b.c[0]
	case "Slice":
		n := m.toInt(args[1])
		if ba, ok := args[0].(*Cell); ok {
			if n == 0 {
				return SliceV{c: make([]Cell, 0)}
			}
			if cs, ok := m.W.backing(ba, n); ok {
				return SliceV{c: cs}
			}
		}
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

// lazyGlobal evaluates the initialiser of one variable of a package whose init function is not run, where it is an
// error or signal constant or the address of another variable.
func (m *Machine) lazyGlobal(g *ssa.Global, c *Cell) {
	f := g.Pkg.Func("init")
	if f == nil {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) {
				continue
			}
			if v := m.lazyValue(st.Val); v != nil {
				c.v = v
			}
			return
		}
	}
}

func (m *Machine) lazyValue(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.MakeInterface:
		if e := m.lazyValue(x.X); e != nil {
			return IfaceV{t: x.X.Type(), v: e}
		}
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && fn.String() == "errors.New" {
			return m.call(m.cur.top, fn, []Value{m.constVal(x.Call.Args[0].(*ssa.Const))}, nil)
		}
	}
	return nil
}
