package main

import (
	"encoding/base64"
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// encoding/json is driven by reflection, which is not encoded. It is modelled here byte for byte: integers are rendered
// with one symbolic byte per digit (the number of digits is a case split), so torn or reordered output is still exact.

func init() {
	js := map[string]natFn{
		"encoding/json.Marshal": func(fr *Frame, a []Value) Value {
			el, err := fr.jsonTry(a[0].(IfaceV), true)
			if err != nil {
				return TupleV{SliceV{}, err}
			}
			return TupleV{fr.m.elemsToBytes(el), IfaceV{}}
		},
		"(*encoding/json.Encoder).Encode": func(fr *Frame, a []Value) Value {
			m := fr.m
			el, err := fr.jsonTry(a[1].(IfaceV), true)
			if err != nil {
				return err
			}
			el = append(el, m.lit("\n")...)
			w := m.loadField(a[0], "w").(IfaceV)
			f := m.P.method(w.t, nil, "Write")
			if f == nil {
				m.unsupported("json.Encoder on " + w.t.String())
			}
			r := m.call(fr.caller, f, []Value{w.v, m.elemsToBytes(el)}, nil).(TupleV)
			return r[1]
		},
		"encoding/json.Unmarshal": func(fr *Frame, a []Value) Value {
			m := fr.m
			return m.jsonDecode(fr, m.bytesToStr(a[0].(SliceV)).elems(m.c), a[1].(IfaceV))
		},
		"encoding/json.Valid": func(fr *Frame, a []Value) Value {
			m := fr.m
			p := &jparse{m: m, el: m.bytesToStr(a[0].(SliceV)).elems(m.c)}
			_, ok := p.document()
			return m.c.Bool(ok)
		},
	}
	for k, v := range js {
		intrinsics[k] = v
	}
}

func (m *Machine) lit(s string) []SElem { return S(s).elems(m.c) }

func (m *Machine) elemsToBytes(el []SElem) SliceV { return m.strToBytes(&Str{el: el}) }

// loadField reads an unexported field of a struct behind a pointer.
func (m *Machine) loadField(p Value, name string) Value {
	cell := p.(*Cell)
	sv := cell.v.(*StructV)
	t := m.pkgType("encoding/json", "Encoder").Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return m.loadCell(&sv.f[i], t.Field(i).Type())
		}
	}
	m.unsupported("field " + name)
	return nil
}

// digits renders an integer of at most 64 bits in decimal.
func (m *Machine) digits(t *Term, signed bool) []SElem {
	c := m.c
	t = c.Resize(t, 64, signed)
	if t.isC() {
		if signed {
			return m.lit(strconv.FormatInt(t.sval(), 10))
		}
		return m.lit(strconv.FormatUint(t.val, 10))
	}
	var out []SElem
	orig, neg := t, false
	if signed && m.branch(c.Cmp(OSlt, t, c.BV(0, 64))) {
		out = m.lit("-")
		neg = true
		t = c.Bin(OSub, c.BV(0, 64), t)
	}
	k := 1
	p := uint64(10)
	for ; k < 19; k++ {
		if m.branch(c.Cmp(OUlt, t, c.BV(p, 64))) {
			break
		}
		p *= 10
	}
	lead := c.BV(0, 64) // value carried by a leading concrete digit
	if k == 19 && !m.branch(c.Cmp(OUlt, t, c.BV(p, 64))) {
		lead = c.BV(p, 64)
		out = append(out, m.lit("1")...)
	}
	sum := lead
	vars := make([]SElem, k)
	w := uint64(1)
	for i := k - 1; i >= 0; i-- {
		d := m.newVar("digit", 8, false, false)
		m.addFact(c.Cmp(OUle, d, c.BV(9, 8)))
		if i == 0 && k > 1 && lead.val == 0 {
			m.addFact(c.Cmp(OUle, c.BV(1, 8), d))
		}
		b := c.Bin(OAdd, d, c.BV('0', 8))
		m.digitOf[b] = d
		vars[i] = SElem{b: b}
		sum = c.Bin(OAdd, sum, c.Bin(OMul, c.Zext(d, 64), c.BV(w, 64)))
		w *= 10
	}
	m.addFact(c.Eq(t, sum))
	out = append(out, vars...)
	r := &rendering{num: out, val: orig, neg: neg, signed: signed}
	if neg {
		r.num = out[1:]
	}
	m.rendered[vars[0].b] = r
	return out
}

// rendering remembers which term a digit string was made from.
type rendering struct {
	num         []SElem // without the sign
	val         *Term   // 64 bits
	neg, signed bool
}

// origin returns the term whose exact rendering num is, or nil.
func (m *Machine) origin(num []SElem, neg bool) *rendering {
	var r *rendering
	for i := 0; i < 2 && i < len(num) && r == nil; i++ {
		r = m.rendered[num[i].b]
	}
	if r == nil || r.neg != neg || len(r.num) != len(num) {
		return nil
	}
	for i := range num {
		if num[i].b != r.num[i].b {
			return nil
		}
	}
	return r
}

func (m *Machine) ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// jsonErr is panicked by jsonEnc where encoding/json returns an error.
type jsonErr string

func (fr *Frame) jsonTry(v IfaceV, html bool) (el []SElem, err Value) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			el, err = nil, fr.m.newErrString(S(string(e)))
		}
	}()
	return fr.jsonEnc(v, html), nil
}

func (fr *Frame) jsonEnc(v IfaceV, html bool) []SElem {
	m := fr.m
	if v.t == nil {
		return m.lit("null")
	}
	if f := m.P.method(v.t, nil, "MarshalJSON"); f != nil {
		if n, ok := v.t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			return m.lit(`"2025-01-01T00:00:00Z"`)
		}
		r := m.call(fr.caller, f, []Value{v.v}, nil).(TupleV)
		return m.bytesToStr(r[0].(SliceV)).elems(m.c)
	}
	switch u := v.t.Underlying().(type) {
	case *types.Pointer:
		c, ok := v.v.(*Cell)
		if !ok {
			m.unsupported("json of symbolic pointer")
		}
		if c == nil {
			return m.lit("null")
		}
		return fr.jsonEnc(IfaceV{t: u.Elem(), v: m.loadCell(c, u.Elem())}, html)
	case *types.Interface:
		return fr.jsonEnc(v.v.(IfaceV), html)
	case *types.Basic:
		switch x := v.v.(type) {
		case *Term:
			if x.w == 0 {
				if m.branch(x) {
					return m.lit("true")
				}
				return m.lit("false")
			}
			_, sg, _ := intInfo(v.t)
			return m.digits(x, sg)
		case *Str:
			return m.jsonStr(x)
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				m.unsupported("json of float")
			}
			return m.lit(string(b))
		}
	case *types.Slice:
		s := v.v.(SliceV)
		if s.c == nil {
			return m.lit("null")
		}
		if w, sg, ok := intInfo(u.Elem()); ok && w == 8 && !sg {
			b := m.bytesToStr(s)
			if !b.conc() {
				m.unsupported("json of symbolic bytes")
			}
			return m.lit(`"` + base64.StdEncoding.EncodeToString([]byte(b.s)) + `"`)
		}
		return fr.jsonArr(s.c, u.Elem(), html)
	case *types.Array:
		return fr.jsonArr(v.v.(*ArrayV).c, u.Elem(), html)
	case *types.Struct:
		out := m.lit("{")
		sv := v.v.(*StructV)
		first := true
		for i := 0; i < u.NumFields(); i++ {
			name, omit, skip := jsonField(u, i)
			if skip {
				continue
			}
			if u.Field(i).Embedded() && name == u.Field(i).Name() {
				m.unsupported("json of embedded field")
			}
			fv := m.loadCell(&sv.f[i], u.Field(i).Type())
			if omit && m.jsonEmpty(fv) {
				continue
			}
			if !first {
				out = append(out, m.lit(",")...)
			}
			first = false
			out = append(out, m.lit(strconv.Quote(name)+":")...)
			out = append(out, fr.jsonEnc(IfaceV{t: u.Field(i).Type(), v: fv}, html)...)
		}
		return append(out, m.lit("}")...)
	case *types.Map:
		kb, isB := u.Key().Underlying().(*types.Basic)
		if f := m.P.method(u.Key(), nil, "MarshalText"); f != nil {
			m.unsupported("json of map with MarshalText keys")
		}
		if !isB || kb.Info()&(types.IsString|types.IsInteger) == 0 {
			panic(jsonErr("json: unsupported type: " + v.t.String()))
		}
		mv := v.v.(*MapV)
		if mv == nil {
			return m.lit("null")
		}
		type ent struct {
			k string
			v Value
		}
		var es []ent
		for _, e := range mv.ents {
			if e.del {
				continue
			}
			k, ok := e.k.(*Str)
			if t, isT := e.k.(*Term); isT && t.isC() {
				ok = true
				if kb.Info()&types.IsUnsigned != 0 {
					k = S(strconv.FormatUint(t.val, 10))
				} else {
					k = S(strconv.FormatInt(t.sval(), 10))
				}
			}
			if !ok || !k.conc() {
				m.unsupported("json of map with symbolic keys")
			}
			es = append(es, ent{k.s, m.loadCell(e.c, u.Elem())})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		out := m.lit("{")
		for i, e := range es {
			if i > 0 {
				out = append(out, m.lit(",")...)
			}
			out = append(out, m.jsonStr(S(e.k))...)
			out = append(out, m.lit(":")...)
			out = append(out, fr.jsonEnc(IfaceV{t: u.Elem(), v: e.v}, html)...)
		}
		return append(out, m.lit("}")...)
	}
	m.unsupported("json of " + v.t.String())
	return nil
}

func (fr *Frame) jsonArr(c []Cell, et types.Type, html bool) []SElem {
	out := fr.m.lit("[")
	for i := range c {
		if i > 0 {
			out = append(out, fr.m.lit(",")...)
		}
		out = append(out, fr.jsonEnc(IfaceV{t: et, v: fr.m.loadCell(&c[i], et)}, html)...)
	}
	return append(out, fr.m.lit("]")...)
}

func (m *Machine) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return !m.branch(x)
		}
		return m.branch(m.c.Eq(x, m.c.BV(0, x.w)))
	case *Str:
		return m.branch(m.c.Eq(m.strLen(x), m.constInt(0)))
	case *Cell:
		return x == nil
	case SliceV:
		return len(x.c) == 0
	case *MapV:
		return x == nil || len(x.ents) == 0
	case IfaceV:
		return x.t == nil
	case float64:
		return x == 0
	}
	return false
}

func jsonField(u *types.Struct, i int) (name string, omit, skip bool) {
	f := u.Field(i)
	if !f.Exported() {
		return "", false, true
	}
	tag, ok := reflect.StructTag(u.Tag(i)).Lookup("json")
	if tag == "-" {
		return "", false, true
	}
	name = f.Name()
	if ok {
		parts := strings.Split(tag, ",")
		if parts[0] != "" {
			name = parts[0]
		}
		for _, o := range parts[1:] {
			omit = omit || o == "omitempty"
		}
	}
	return
}

func (m *Machine) jsonStr(s *Str) []SElem {
	if s.conc() {
		b, _ := json.Marshal(s.s)
		return m.lit(string(b))
	}
	c := m.c
	out := m.lit(`"`)
	for _, e := range s.el {
		switch {
		case e.dec != nil:
			out = append(out, e)
		case e.b.isC() && e.b.val < utf8.RuneSelf:
			b, _ := json.Marshal(string([]byte{byte(e.b.val)}))
			out = append(out, m.lit(string(b[1:len(b)-1]))...)
		default:
			esc := c.Cmp(OUlt, e.b, c.BV(0x20, 8))
			for _, x := range []byte{'"', '\\', '<', '>', '&', 0x7f} {
				if x != 0x7f {
					esc = c.Or(esc, c.Eq(e.b, c.BV(uint64(x), 8)))
				}
			}
			if m.branch(c.Cmp(OUle, c.BV(0x80, 8), e.b)) {
				m.unsupported("json of a symbolic byte above 0x7f")
			}
			if !m.branch(esc) {
				out = append(out, e)
				continue
			}
			done := false
			for _, x := range []byte{'"', '\\', '\b', '\f', '\n', '\r', '\t', '<', '>', '&'} {
				if m.branch(c.Eq(e.b, c.BV(uint64(x), 8))) {
					b, _ := json.Marshal(string([]byte{x}))
					out = append(out, m.lit(string(b[1:len(b)-1]))...)
					done = true
					break
				}
			}
			if !done { // \u00XX
				out = append(out, m.lit(`\u00`)...)
				hi := c.Bin(OLshr, e.b, c.BV(4, 8))
				lo := c.Bin(OBAnd, e.b, c.BV(15, 8))
				for _, n := range []*Term{hi, lo} {
					out = append(out, SElem{b: c.Ite(c.Cmp(OUlt, n, c.BV(10, 8)), c.Bin(OAdd, n, c.BV('0', 8)), c.Bin(OAdd, n, c.BV('a'-10, 8)))})
				}
			}
		}
	}
	return append(out, m.lit(`"`)...)
}

// ---- decoding ----

type jkind byte

type jnode struct {
	kind jkind // 'n' number, 's' string, 't' true, 'f' false, '0' null, '[' array, '{' object
	num  []SElem
	str  []SElem
	arr  []*jnode
	keys []string
}

type jparse struct {
	m  *Machine
	el []SElem
	i  int
}

// at returns the concrete byte at the cursor; 0 at the end; a digit variable reads as '5'; any other symbolic byte is
// decided by case splits.
func (p *jparse) at() byte {
	if p.i >= len(p.el) {
		return 0
	}
	e := p.el[p.i]
	if e.dec != nil {
		p.m.unsupported("json with an opaque decimal")
	}
	if e.b.isC() {
		return byte(e.b.val)
	}
	if p.m.digitOf[e.b] != nil {
		return '5'
	}
	c := p.m.c
	for _, x := range []byte("\"\\{}[],:-+.eE \n\t\r") {
		if p.m.branch(c.Eq(e.b, c.BV(uint64(x), 8))) {
			return x
		}
	}
	if p.m.branch(c.And(c.Cmp(OUle, c.BV('0', 8), e.b), c.Cmp(OUle, e.b, c.BV('9', 8)))) {
		return '5'
	}
	return 1 // a byte with no meaning to the grammar outside strings (literals are taken as concrete)
}

func (p *jparse) ws() {
	for {
		switch p.at() {
		case ' ', '\n', '\t', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *jparse) document() (*jnode, bool) {
	p.ws()
	n, ok := p.value()
	if !ok {
		return nil, false
	}
	p.ws()
	return n, p.i == len(p.el)
}

func (p *jparse) word(s string) bool {
	for k := 0; k < len(s); k++ {
		if p.at() != s[k] {
			return false
		}
		p.i++
	}
	return true
}

func (p *jparse) value() (*jnode, bool) {
	switch b := p.at(); {
	case b == '{':
		p.i++
		n := &jnode{kind: '{'}
		p.ws()
		if p.at() == '}' {
			p.i++
			return n, true
		}
		for {
			p.ws()
			if p.at() != '"' {
				return nil, false
			}
			k, ok := p.str()
			if !ok {
				return nil, false
			}
			ks := normStr(p.m.c, k)
			if !ks.conc() {
				p.m.unsupported("json object with a symbolic key")
			}
			p.ws()
			if p.at() != ':' {
				return nil, false
			}
			p.i++
			p.ws()
			v, ok := p.value()
			if !ok {
				return nil, false
			}
			n.keys, n.arr = append(n.keys, ks.s), append(n.arr, v)
			p.ws()
			switch p.at() {
			case ',':
				p.i++
			case '}':
				p.i++
				return n, true
			default:
				return nil, false
			}
		}
	case b == '[':
		p.i++
		n := &jnode{kind: '['}
		p.ws()
		if p.at() == ']' {
			p.i++
			return n, true
		}
		for {
			p.ws()
			v, ok := p.value()
			if !ok {
				return nil, false
			}
			n.arr = append(n.arr, v)
			p.ws()
			switch p.at() {
			case ',':
				p.i++
			case ']':
				p.i++
				return n, true
			default:
				return nil, false
			}
		}
	case b == '"':
		s, ok := p.str()
		return &jnode{kind: 's', str: s}, ok
	case b == 't':
		return &jnode{kind: 't'}, p.word("true")
	case b == 'f':
		return &jnode{kind: 'f'}, p.word("false")
	case b == 'n':
		return &jnode{kind: '0'}, p.word("null")
	case b == '-' || b >= '0' && b <= '9':
		start := p.i
		if b == '-' {
			p.i++
		}
		b = p.at()
		if b < '0' || b > '9' {
			return nil, false
		}
		first := p.el[p.i].b
		p.i++
		if nx := p.at(); nx >= '0' && nx <= '9' {
			if p.m.branch(p.m.c.Eq(first, p.m.c.BV('0', 8))) {
				return nil, false // a leading zero
			}
		}
		for b = p.at(); b >= '0' && b <= '9'; b = p.at() {
			p.i++
		}
		if b == '.' {
			p.i++
			if b = p.at(); b < '0' || b > '9' {
				return nil, false
			}
			for b = p.at(); b >= '0' && b <= '9'; b = p.at() {
				p.i++
			}
		}
		if b == 'e' || b == 'E' {
			p.i++
			if b = p.at(); b == '+' || b == '-' {
				p.i++
			}
			if b = p.at(); b < '0' || b > '9' {
				return nil, false
			}
			for b = p.at(); b >= '0' && b <= '9'; b = p.at() {
				p.i++
			}
		}
		return &jnode{kind: 'n', num: p.el[start:p.i]}, true
	}
	return nil, false
}

func (p *jparse) str() ([]SElem, bool) {
	p.i++
	var out []SElem
	c := p.m.c
	for {
		if p.i >= len(p.el) {
			return nil, false
		}
		e := p.el[p.i]
		if e.dec != nil {
			out = append(out, e)
			p.i++
			continue
		}
		if !e.b.isC() && p.m.digitOf[e.b] == nil {
			if p.m.branch(c.Or(c.Eq(e.b, c.BV('"', 8)), c.Eq(e.b, c.BV('\\', 8)))) {
				p.m.unsupported("symbolic quote in json string")
			}
			if p.m.branch(c.Cmp(OUlt, e.b, c.BV(0x20, 8))) {
				return nil, false
			}
			if p.m.branch(c.Cmp(OUle, c.BV(0x80, 8), e.b)) {
				p.m.unsupported("symbolic non-ASCII byte in json string")
			}
			out = append(out, e)
			p.i++
			continue
		}
		if !e.b.isC() {
			out = append(out, e)
			p.i++
			continue
		}
		switch b := byte(e.b.val); {
		case b == '"':
			p.i++
			return out, true
		case b < 0x20:
			return nil, false
		case b == '\\':
			p.i++
			switch x := p.at(); x {
			case '"', '\\', '/':
				out = append(out, p.m.lit(string(x))...)
			case 'b':
				out = append(out, p.m.lit("\b")...)
			case 'f':
				out = append(out, p.m.lit("\f")...)
			case 'n':
				out = append(out, p.m.lit("\n")...)
			case 'r':
				out = append(out, p.m.lit("\r")...)
			case 't':
				out = append(out, p.m.lit("\t")...)
			case 'u':
				if p.i+4 >= len(p.el) {
					return nil, false
				}
				h := &Str{el: p.el[p.i+1 : p.i+5]}
				hs := normStr(c, h.el)
				if !hs.conc() {
					lo, hi := p.el[p.i+4].b, p.el[p.i+3].b
					nib := func(t *Term) *Term {
						return c.Ite(c.Cmp(OUle, t, c.BV('9', 8)), c.Bin(OSub, t, c.BV('0', 8)), c.Bin(OSub, t, c.BV('a'-10, 8)))
					}
					out = append(out, SElem{b: c.Bin(OBOr, c.Bin(OShl, nib(hi), c.BV(4, 8)), nib(lo))})
				} else {
					n, err := strconv.ParseUint(hs.s, 16, 32)
					if err != nil {
						return nil, false
					}
					if n >= 0xd800 && n < 0xe000 {
						p.m.unsupported("surrogates in json string")
					}
					out = append(out, p.m.lit(string(rune(n)))...)
				}
				p.i += 4
			default:
				return nil, false
			}
			p.i++
		default:
			out = append(out, e)
			p.i++
		}
	}
}

func (m *Machine) jsonDecode(fr *Frame, el []SElem, target IfaceV) Value {
	if target.t == nil {
		return m.newErrString(S("json: Unmarshal(nil)"))
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		return m.newErrString(S("json: Unmarshal(non-pointer " + target.t.String() + ")"))
	}
	p := &jparse{m: m, el: el}
	n, ok := p.document()
	if !ok {
		return m.newErrString(S("invalid character or unexpected end of JSON input"))
	}
	if !m.jsonStore(n, target.v, pt.Elem()) {
		return m.newErrString(S("json: cannot unmarshal into Go value"))
	}
	return IfaceV{}
}

// jsonStore assigns a parsed value; false when a value does not fit (what fits is stored, as encoding/json does).
func (m *Machine) jsonStore(n *jnode, p Value, t types.Type) bool {
	if f := m.P.method(types.NewPointer(t), nil, "UnmarshalJSON"); f != nil {
		m.unsupported("UnmarshalJSON of " + t.String())
	}
	c := m.c
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == '0' {
			m.store(p, m.zero(t))
			return true
		}
		cell, _ := m.load(p, t).(*Cell)
		if cell == nil {
			cell = m.newCell(m.zero(u.Elem()))
			m.store(p, cell)
		}
		return m.jsonStore(n, cell, u.Elem())
	case *types.Interface:
		m.unsupported("json into an interface")
	case *types.Basic:
		switch {
		case n.kind == '0':
			return true
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 't' && n.kind != 'f' {
				return false
			}
			m.store(p, c.Bool(n.kind == 't'))
			return true
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				return false
			}
			m.store(p, normStr(c, n.str))
			return true
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' {
				return false
			}
			w, sg, _ := intInfo(t)
			v, ok := m.jsonInt(n.num, w, sg)
			if ok {
				m.store(p, v)
			}
			return ok
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'n' {
				return false
			}
			s := normStr(c, n.num)
			if !s.conc() {
				m.unsupported("json of a symbolic number into a float")
			}
			f, err := strconv.ParseFloat(s.s, 64)
			if err != nil {
				return false
			}
			m.store(p, f)
			return true
		}
	case *types.Struct:
		if n.kind == '0' {
			return true
		}
		if n.kind != '{' {
			return false
		}
		ok := true
		for k, key := range n.keys {
			best := -1
			for i := 0; i < u.NumFields(); i++ {
				name, _, skip := jsonField(u, i)
				if skip {
					continue
				}
				if name == key {
					best = i
					break
				}
				if best < 0 && strings.EqualFold(name, key) {
					best = i
				}
			}
			if best >= 0 {
				ok = m.jsonStore(n.arr[k], m.fieldAddr(p, best, t), u.Field(best).Type()) && ok
			}
		}
		return ok
	case *types.Map:
		if n.kind == '0' {
			m.store(p, m.zero(t))
			return true
		}
		if n.kind != '{' {
			return false
		}
		if b, isS := u.Key().Underlying().(*types.Basic); !isS || b.Info()&types.IsString == 0 {
			break
		}
		mv, _ := m.load(p, t).(*MapV)
		if mv == nil {
			mv = m.newMap()
			m.store(p, mv)
		}
		ok := true
		for k, key := range n.keys {
			cell := m.newCell(m.zero(u.Elem()))
			if m.jsonStore(n.arr[k], cell, u.Elem()) {
				m.mapSet(mv, u.Key(), S(key), m.load(cell, u.Elem()))
			} else {
				ok = false
			}
		}
		return ok
	case *types.Array:
		if n.kind == '0' {
			return true
		}
		if n.kind != '[' {
			return false
		}
		av := p.(*Cell).v
		if av == nil {
			m.store(p, m.zero(t))
			av = p.(*Cell).v
		}
		cells := av.(*ArrayV).c
		ok := true
		for i := range cells {
			if i < len(n.arr) {
				ok = m.jsonStore(n.arr[i], &cells[i], u.Elem()) && ok
			} else {
				m.storeCell(&cells[i], m.zero(u.Elem()))
			}
		}
		return ok
	case *types.Slice:
		if n.kind == '0' {
			m.store(p, m.zero(t))
			return true
		}
		if n.kind != '[' {
			return false
		}
		s := SliceV{c: m.newCells(len(n.arr))}
		if len(n.arr) == 0 {
			s.c = make([]Cell, 0)
		}
		ok := true
		for i := range n.arr {
			s.c[i].v = m.zero(u.Elem())
			ok = m.jsonStore(n.arr[i], &s.c[i], u.Elem()) && ok
		}
		m.store(p, s)
		return ok
	}
	m.unsupported("json into " + t.String())
	return false
}

func (m *Machine) jsonInt(num []SElem, w uint8, signed bool) (*Term, bool) {
	c := m.c
	neg := false
	if num[0].b.isC() && num[0].b.val == '-' {
		neg = true
		num = num[1:]
	}
	for _, e := range num {
		if e.b.isC() && (e.b.val < '0' || e.b.val > '9') {
			return nil, false // a fraction or exponent does not fit an integer
		}
	}
	if neg && !signed {
		return nil, false
	}
	if r := m.origin(num, neg); r != nil && r.signed == signed {
		x := c.Resize(r.val, w, signed)
		if w == 64 || m.branch(c.Eq(c.Resize(x, 64, signed), r.val)) {
			return x, true
		}
		return nil, false
	}
	for len(num) > 1 && num[0].b.isC() && num[0].b.val == '0' {
		num = num[1:]
	}
	if len(num) > 20 {
		return nil, false
	}
	digit := func(e SElem) *Term {
		if d := m.digitOf[e.b]; d != nil {
			return d
		}
		return c.Bin(OSub, e.b, c.BV('0', 8))
	}
	lead := c.BV(0, 64)
	if len(num) == 20 {
		if !m.branch(c.Eq(digit(num[0]), c.BV(1, 8))) {
			return nil, false
		}
		lead = c.BV(10000000000000000000, 64)
		num = num[1:]
	}
	sum := lead
	wt := uint64(1)
	low := c.BV(0, 64)
	for i := len(num) - 1; i >= 0; i-- {
		x := c.Bin(OMul, c.Zext(digit(num[i]), 64), c.BV(wt, 64))
		sum, low = c.Bin(OAdd, sum, x), c.Bin(OAdd, low, x)
		wt *= 10
	}
	if lead.val != 0 && !m.branch(c.Cmp(OUle, low, c.BV(8446744073709551615, 64))) {
		return nil, false
	}
	max := ^uint64(0)
	if w < 64 {
		max = 1<<w - 1
	}
	if signed {
		max >>= 1
	}
	if neg {
		max++
	}
	if max != ^uint64(0) && !m.branch(c.Cmp(OUle, sum, c.BV(max, 64))) {
		return nil, false
	}
	if neg {
		sum = c.Bin(OSub, c.BV(0, 64), sum)
	}
	return c.Resize(sum, w, signed), true
}
