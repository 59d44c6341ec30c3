//verif:pkg internal/ratelimiter/persistence

package persistence

import (
	"errors"
	"vsa/internal/zzverif/rt"
)

// A reading of the scripting and command subset of Redis that idempotent counters need. It executes the script text the
// persister sends. A script outside the subset is not judged (zzSkipP21).

type zzValP21 struct {
	kind byte // 'n' number, 's' string, 'd' decimal string of num, 'b' bool, 0 nil
	num  int64
	str  string
	b    bool
}

func zzSkipP21(why string) { rt.Assume(false) }

type zzHashP21 struct {
	key   string
	field string
	val   int64
}

type zzStringP21 struct {
	key string
	val int64
	ttl int64 // seconds, -1 without expiry
}

type zzRedisP21 struct {
	hashes []zzHashP21
	strs   []zzStringP21
	calls  int
	fault  func(call int) (before, after error)
}

func (r *zzRedisP21) str(key string) int {
	for i := range r.strs {
		if r.strs[i].key == key {
			return i
		}
	}
	return -1
}

func (r *zzRedisP21) hash(key, field string) *zzHashP21 {
	for i := range r.hashes {
		if r.hashes[i].key == key && r.hashes[i].field == field {
			return &r.hashes[i]
		}
	}
	r.hashes = append(r.hashes, zzHashP21{key: key, field: field})
	return &r.hashes[len(r.hashes)-1]
}

func zzNumP21(v zzValP21) int64 {
	switch v.kind {
	case 'n', 'd':
		return v.num
	case 's':
		neg, n := false, int64(0)
		for i := 0; i < len(v.str); i++ {
			if i == 0 && v.str[0] == '-' {
				neg = true
				continue
			}
			if v.str[i] < '0' || v.str[i] > '9' {
				zzSkipP21("not an integer")
			}
			n = n*10 + int64(v.str[i]-'0')
		}
		if neg {
			n = -n
		}
		return n
	}
	zzSkipP21("not a number")
	return 0
}

func zzTextP21(v zzValP21) string {
	if v.kind != 's' {
		zzSkipP21("not a string")
	}
	return v.str
}

func zzOptP21(a []zzValP21, name string) int {
	for i := range a {
		if a[i].kind == 's' && zzUpperP21(a[i].str) == name {
			return i
		}
	}
	return -1
}

func zzUpperP21(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func zzIntP21(n int64) zzValP21 { return zzValP21{kind: 'n', num: n} }
func zzOKP21() zzValP21         { return zzValP21{kind: 's', str: "OK"} }
func zzBoolP21(b bool) zzValP21 { return zzValP21{kind: 'b', b: b} }

func (r *zzRedisP21) call(a []zzValP21) zzValP21 {
	cmd := zzUpperP21(zzTextP21(a[0]))
	a = a[1:]
	key := zzTextP21(a[0])
	switch cmd {
	case "SETNX":
		if r.str(key) >= 0 {
			return zzIntP21(0)
		}
		r.strs = append(r.strs, zzStringP21{key, zzNumP21(a[1]), -1})
		return zzIntP21(1)
	case "SET":
		ttl := int64(-1)
		if i := zzOptP21(a[2:], "EX"); i >= 0 {
			ttl = zzNumP21(a[3+i])
		}
		if i := zzOptP21(a[2:], "PX"); i >= 0 {
			ttl = zzNumP21(a[3+i]) / 1000
		}
		i := r.str(key)
		if i >= 0 && zzOptP21(a[2:], "NX") >= 0 || i < 0 && zzOptP21(a[2:], "XX") >= 0 {
			return zzBoolP21(false)
		}
		if i < 0 {
			r.strs = append(r.strs, zzStringP21{key: key})
			i = len(r.strs) - 1
		}
		r.strs[i].val, r.strs[i].ttl = 1, ttl
		return zzOKP21()
	case "EXISTS":
		if r.str(key) >= 0 {
			return zzIntP21(1)
		}
		return zzIntP21(0)
	case "GET":
		if i := r.str(key); i >= 0 {
			return zzValP21{kind: 'd', num: r.strs[i].val}
		}
		return zzBoolP21(false)
	case "DEL":
		i := r.str(key)
		if i < 0 {
			return zzIntP21(0)
		}
		r.strs = append(r.strs[:i:i], r.strs[i+1:]...)
		return zzIntP21(1)
	case "EXPIRE", "PEXPIRE":
		i := r.str(key)
		if i < 0 {
			return zzIntP21(0)
		}
		n := zzNumP21(a[1])
		if cmd == "PEXPIRE" {
			n /= 1000
		}
		if n <= 0 {
			r.strs = append(r.strs[:i:i], r.strs[i+1:]...)
		} else {
			r.strs[i].ttl = n
		}
		return zzIntP21(1)
	case "HINCRBY":
		h := r.hash(key, zzTextP21(a[1]))
		h.val += zzNumP21(a[2])
		return zzIntP21(h.val)
	case "HGET":
		return zzValP21{kind: 'd', num: r.hash(key, zzTextP21(a[1])).val}
	case "HSET":
		r.hash(key, zzTextP21(a[1])).val = zzNumP21(a[2])
		return zzIntP21(0)
	}
	zzSkipP21("command outside the subset")
	return zzValP21{}
}

func (r *zzRedisP21) Eval(script string, keys []string, args []interface{}) (interface{}, error) {
	n := r.calls
	r.calls++
	var before, after error
	if r.fault != nil {
		before, after = r.fault(n)
	}
	if before != nil {
		return nil, before
	}
	l := &zzLuaP21{toks: zzLexP21(script), r: r}
	for _, k := range keys {
		l.keys = append(l.keys, zzValP21{kind: 's', str: k})
	}
	for _, a := range args {
		switch x := a.(type) {
		case int64:
			l.argv = append(l.argv, zzValP21{kind: 'd', num: x})
		case int:
			l.argv = append(l.argv, zzValP21{kind: 'd', num: int64(x)})
		case string:
			l.argv = append(l.argv, zzValP21{kind: 's', str: x})
		default:
			zzSkipP21("argument type")
		}
	}
	l.block(true)
	if after != nil {
		return nil, after
	}
	if l.ret.kind == 'n' {
		return l.ret.num, nil
	}
	return nil, errors.New("redis: nil")
}

// ---- Lua subset: local, assignment, if/elseif/else, return, calls; no loops.

func zzLexP21(s string) []string {
	var t []string
	alnum := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ';':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"':
			j := i + 1
			for s[j] != c {
				j++
			}
			t = append(t, "'"+s[i+1:j])
			i = j + 1
		case alnum(c):
			j := i
			for j < len(s) && alnum(s[j]) {
				j++
			}
			t = append(t, s[i:j])
			i = j
		default:
			if i+1 < len(s) {
				if d := s[i : i+2]; d == "==" || d == "~=" || d == "<=" || d == ">=" || d == ".." {
					t = append(t, d)
					i += 2
					continue
				}
			}
			t = append(t, s[i:i+1])
			i++
		}
	}
	return append(t, "")
}

type zzVarP21 struct {
	name string
	val  zzValP21
}

type zzLuaP21 struct {
	toks       []string
	i          int
	r          *zzRedisP21
	keys, argv []zzValP21
	vars       []zzVarP21
	ret        zzValP21
	done       bool
}

func (l *zzLuaP21) is(t string) bool {
	if l.toks[l.i] == t {
		l.i++
		return true
	}
	return false
}

func (l *zzLuaP21) want(t string) {
	if !l.is(t) {
		zzSkipP21("syntax outside the subset")
	}
}

// block runs (or skips, when run is false) statements up to end, else, elseif or the end of the script.
func (l *zzLuaP21) block(run bool) {
	for !l.done {
		t := l.toks[l.i]
		switch t {
		case "", "end", "else", "elseif":
			return
		case "local":
			l.i++
			name := l.toks[l.i]
			l.i++
			v := zzValP21{}
			if l.is("=") {
				v = l.or(run)
			}
			if run {
				l.vars = append(l.vars, zzVarP21{name, v})
			}
		case "if":
			l.i++
			l.cond(run)
		case "return":
			l.i++
			v := zzValP21{}
			if n := l.toks[l.i]; n != "" && n != "end" && n != "else" && n != "elseif" {
				v = l.or(run)
			}
			if run {
				l.ret, l.done = v, true
			}
		default:
			if l.toks[l.i+1] == "=" {
				l.i += 2
				v := l.or(run)
				if run {
					for j := len(l.vars) - 1; j >= -1; j-- {
						if j < 0 {
							l.vars = append(l.vars, zzVarP21{t, v})
						} else if l.vars[j].name == t {
							l.vars[j].val = v
							break
						}
					}
				}
			} else {
				l.or(run)
			}
		}
	}
}

func (l *zzLuaP21) cond(run bool) {
	c := zzTrueP21(l.or(run))
	l.want("then")
	n := len(l.vars)
	l.block(run && c)
	if l.done {
		return
	}
	l.vars = l.vars[:n]
	if l.is("elseif") {
		l.cond(run && !c)
		return
	}
	if l.is("else") {
		l.block(run && !c)
		if l.done {
			return
		}
		l.vars = l.vars[:n]
	}
	l.want("end")
}

func zzTrueP21(v zzValP21) bool { return !(v.kind == 0 || v.kind == 'b' && !v.b) }

func (l *zzLuaP21) or(run bool) zzValP21 {
	a := l.and(run)
	for l.is("or") {
		t := zzTrueP21(a)
		b := l.and(run && !t)
		if !t {
			a = b
		}
	}
	return a
}

func (l *zzLuaP21) and(run bool) zzValP21 {
	a := l.cmp(run)
	for l.is("and") {
		t := zzTrueP21(a)
		b := l.cmp(run && t)
		if t {
			a = b
		}
	}
	return a
}

func zzEqP21(a, b zzValP21) bool {
	if a.kind == 'n' && b.kind == 'n' {
		return a.num == b.num
	}
	if (a.kind == 'd' || a.kind == 's') && (b.kind == 'd' || b.kind == 's') {
		if a.kind == 's' && b.kind == 's' {
			return a.str == b.str
		}
		return zzNumP21(a) == zzNumP21(b)
	}
	return a.kind == b.kind && a.b == b.b
}

func (l *zzLuaP21) cmp(run bool) zzValP21 {
	a := l.sum(run)
	for {
		op := l.toks[l.i]
		switch op {
		case "==", "~=", "<", "<=", ">", ">=":
		default:
			return a
		}
		l.i++
		b := l.sum(run)
		if !run {
			continue
		}
		switch op {
		case "==":
			a = zzBoolP21(zzEqP21(a, b))
		case "~=":
			a = zzBoolP21(!zzEqP21(a, b))
		default:
			if a.kind != 'n' || b.kind != 'n' {
				zzSkipP21("order of strings")
			}
			x, y := a.num, b.num
			a = zzBoolP21(op == "<" && x < y || op == "<=" && x <= y || op == ">" && x > y || op == ">=" && x >= y)
		}
	}
}

func (l *zzLuaP21) sum(run bool) zzValP21 {
	a := l.mul(run)
	for {
		op := l.toks[l.i]
		if op != "+" && op != "-" && op != ".." {
			return a
		}
		l.i++
		b := l.mul(run)
		if !run {
			continue
		}
		if op == ".." {
			a = zzValP21{kind: 's', str: zzTextP21(a) + zzTextP21(b)}
		} else if op == "+" {
			a = zzIntP21(zzNumP21(a) + zzNumP21(b))
		} else {
			a = zzIntP21(zzNumP21(a) - zzNumP21(b))
		}
	}
}

func (l *zzLuaP21) mul(run bool) zzValP21 {
	a := l.unary(run)
	for l.is("*") {
		b := l.unary(run)
		if run {
			a = zzIntP21(zzNumP21(a) * zzNumP21(b))
		}
	}
	return a
}

func (l *zzLuaP21) unary(run bool) zzValP21 {
	if l.is("-") {
		v := l.unary(run)
		if !run {
			return v
		}
		return zzIntP21(-zzNumP21(v))
	}
	if l.is("not") {
		return zzBoolP21(!zzTrueP21(l.unary(run)))
	}
	if l.is("#") {
		v := l.toks[l.i]
		l.i++
		if v == "KEYS" {
			return zzIntP21(int64(len(l.keys)))
		}
		if v == "ARGV" {
			return zzIntP21(int64(len(l.argv)))
		}
		zzSkipP21("length of a value")
	}
	return l.primary(run)
}

func (l *zzLuaP21) args(run bool) []zzValP21 {
	var a []zzValP21
	l.want("(")
	for !l.is(")") {
		a = append(a, l.or(run))
		l.is(",")
	}
	return a
}

func (l *zzLuaP21) primary(run bool) zzValP21 {
	t := l.toks[l.i]
	l.i++
	switch {
	case t == "(":
		v := l.or(run)
		l.want(")")
		return v
	case t == "":
		zzSkipP21("end of script")
	case t == "nil":
		return zzValP21{}
	case t == "true" || t == "false":
		return zzBoolP21(t == "true")
	case t[0] == '\'':
		return zzValP21{kind: 's', str: t[1:]}
	case t[0] >= '0' && t[0] <= '9':
		return zzIntP21(zzNumP21(zzValP21{kind: 's', str: t}))
	case t == "KEYS" || t == "ARGV":
		l.want("[")
		i := l.or(run)
		l.want("]")
		tab := l.keys
		if t == "ARGV" {
			tab = l.argv
		}
		if !run || i.num < 1 || int(i.num) > len(tab) {
			return zzValP21{}
		}
		return tab[i.num-1]
	case t == "tonumber":
		a := l.args(run)
		if !run || a[0].kind == 0 {
			return zzValP21{}
		}
		return zzIntP21(zzNumP21(a[0]))
	case t == "tostring":
		a := l.args(run)
		if run && a[0].kind == 'n' {
			a[0].kind = 'd'
		}
		if !run {
			return zzValP21{}
		}
		return a[0]
	case t == "redis":
		l.want(".")
		f := l.toks[l.i]
		l.i++
		if f != "call" && f != "pcall" {
			zzSkipP21("redis." + f)
		}
		a := l.args(run)
		if !run {
			return zzValP21{}
		}
		return l.r.call(a)
	}
	for j := len(l.vars) - 1; j >= 0; j-- {
		if l.vars[j].name == t {
			return l.vars[j].val
		}
	}
	if run {
		zzSkipP21("unknown name")
	}
	return zzValP21{}
}
