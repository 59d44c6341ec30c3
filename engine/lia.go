package main

// Exact integer encoding of bit-vector queries: every bit-vector term is the integer of its
// signed reading; an operation is followed by an explicit wrap unless interval reasoning over
// the asserted variable bounds shows that it cannot overflow. Linear queries that bit-blasting
// finds hard are easy here. Queries with genuine bit operations are left to the BV solver.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
)

type ival struct{ lo, hi int64 }

type iTerm struct {
	s      string
	lo, hi int64
}

type iLevel struct {
	fact  *Term
	bad   bool
	env   []envUndo
	memo  []*Term
	vars  []*Term
	arith int
	abs   []string
	nabs  int
}
type envUndo struct {
	v   *Term
	old ival
	had bool
}

type IntSolver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	inc    io.Closer
	out    *bufio.Reader
	levels []*iLevel
	env    map[*Term]ival
	memo   map[*Term]iTerm
	names  map[string]string
	seenV  map[*Term]bool // variables whose range is asserted on the stack
	decl   map[*Term]bool
	cur    *iLevel
	arith  int
	nbad   int
	curTO  int
	dead   bool
	defs   []string
	ndef   int
	nabs   int
}

type liaBad struct{}

func NewIntSolver() *IntSolver {
	s := &IntSolver{}
	s.start()
	return s
}

func (s *IntSolver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inc = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.levels = nil
	s.env = map[*Term]ival{}
	s.memo = map[*Term]iTerm{}
	s.names = map[string]string{}
	s.seenV = map[*Term]bool{}
	s.decl = map[*Term]bool{}
	s.arith, s.nbad, s.curTO, s.ndef, s.nabs = 0, 0, 0, 0, 0
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *IntSolver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *IntSolver) send(x string) { s.in.WriteString(x) }

func fullIval(w uint8) ival {
	if w >= 64 {
		return ival{math.MinInt64, math.MaxInt64}
	}
	return ival{-(int64(1) << (w - 1)), int64(1)<<(w-1) - 1}
}

func num(x int64) string {
	if x < 0 {
		if x == math.MinInt64 {
			return "(- 9223372036854775808)"
		}
		return "(- " + strconv.FormatInt(-x, 10) + ")"
	}
	return strconv.FormatInt(x, 10)
}

func pow2(k uint8) string {
	return new(big.Int).Lsh(big.NewInt(1), uint(k)).String()
}

func (s *IntSolver) name(sort, body string) string {
	if n, ok := s.names[body]; ok {
		return n
	}
	n := "i" + strconv.Itoa(len(s.names))
	s.names[body] = n
	s.ndef++
	s.send("(define-fun " + n + " () " + sort + " " + body + ")\n")
	return n
}

func (s *IntSolver) mkI(body string, lo, hi int64) iTerm { return iTerm{s.name("Int", body), lo, hi} }

// wrapped builds the value of exact integer expression e with bounds [lo,hi] at width w.
func (s *IntSolver) wrapped(e string, lo, hi *big.Int, w uint8) iTerm {
	f := fullIval(w)
	if lo.Cmp(big.NewInt(f.lo)) >= 0 && hi.Cmp(big.NewInt(f.hi)) <= 0 {
		return s.mkI(e, lo.Int64(), hi.Int64())
	}
	n := s.name("Int", e)
	// a single wrap in either direction is a case split, otherwise mod
	span := new(big.Int).Lsh(big.NewInt(1), uint(w))
	lo1 := new(big.Int).Add(big.NewInt(f.lo), new(big.Int).Neg(span))
	hi1 := new(big.Int).Add(big.NewInt(f.hi), span)
	if lo.Cmp(lo1) >= 0 && hi.Cmp(hi1) <= 0 {
		b := n
		if hi.Cmp(big.NewInt(f.hi)) > 0 {
			b = fmt.Sprintf("(ite (> %s %s) (- %s %s) %s)", n, num(f.hi), n, pow2(w), b)
		}
		if lo.Cmp(big.NewInt(f.lo)) < 0 {
			b = fmt.Sprintf("(ite (< %s %s) (+ %s %s) %s)", n, num(f.lo), n, pow2(w), b)
		}
		return s.mkI(b, f.lo, f.hi)
	}
	return s.mkI(fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", n, pow2(w-1), pow2(w), pow2(w-1)), f.lo, f.hi)
}

func (s *IntSolver) uview(x iTerm, w uint8) string {
	if x.lo >= 0 {
		return x.s
	}
	if x.hi < 0 {
		return s.name("Int", fmt.Sprintf("(+ %s %s)", x.s, pow2(w)))
	}
	return s.name("Int", fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", x.s, x.s, pow2(w), x.s))
}

func bi(x int64) *big.Int { return big.NewInt(x) }

func (s *IntSolver) tr(t *Term) iTerm {
	if t.op == OConst {
		if t.w == 0 {
			if t.val == 1 {
				return iTerm{s: "true"}
			}
			return iTerm{s: "false"}
		}
		v := t.sval()
		return iTerm{num(v), v, v}
	}
	if t.op == OVar {
		if !s.decl[t] {
			s.decl[t] = true
			if t.w == 0 {
				s.send("(declare-const |" + t.name + "| Bool)\n")
			} else {
				s.send("(declare-const |" + t.name + "| Int)\n")
			}
		}
		if !s.seenV[t] {
			s.seenV[t] = true
			s.cur.vars = append(s.cur.vars, t)
		}
		iv, ok := s.env[t]
		if !ok && t.w > 0 {
			iv = fullIval(t.w)
		}
		return iTerm{"|" + t.name + "|", iv.lo, iv.hi}
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r, bad := s.try(t)
	if bad { // outside the integer fragment: an unconstrained value (models are re-checked)
		if t.w == 0 {
			panic(liaBad{})
		}
		n := fmt.Sprintf("abs!%d", t.id)
		if !s.decl[t] {
			s.decl[t] = true
			s.send("(declare-const |" + n + "| Int)\n")
		}
		f := fullIval(t.w)
		s.cur.abs = append(s.cur.abs, fmt.Sprintf("(assert (and (<= %s |%s|) (<= |%s| %s)))\n", num(f.lo), n, n, num(f.hi)))
		s.nabs++
		s.cur.nabs++
		r = iTerm{"|" + n + "|", f.lo, f.hi}
	}
	s.memo[t] = r
	s.cur.memo = append(s.cur.memo, t)
	return r
}

func (s *IntSolver) try(t *Term) (r iTerm, bad bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(liaBad); !ok {
				panic(x)
			}
			bad = true
		}
	}()
	return s.tr1(t), false
}

func (s *IntSolver) tr1(t *Term) iTerm {
	w := t.w
	B := func(body string) iTerm { return iTerm{s: s.name("Bool", body)} }
	switch t.op {
	case ONot:
		return B("(not " + s.tr(t.a).s + ")")
	case OAnd:
		return B("(and " + s.tr(t.a).s + " " + s.tr(t.b).s + ")")
	case OOr:
		return B("(or " + s.tr(t.a).s + " " + s.tr(t.b).s + ")")
	case OIte:
		c, a, b := s.tr(t.a), s.tr(t.b), s.tr(t.c)
		body := "(ite " + c.s + " " + a.s + " " + b.s + ")"
		if w == 0 {
			return B(body)
		}
		return s.mkI(body, min(a.lo, b.lo), max(a.hi, b.hi))
	case OEq:
		a, b := s.tr(t.a), s.tr(t.b)
		return B("(= " + a.s + " " + b.s + ")")
	case OSlt, OSle:
		a, b := s.tr(t.a), s.tr(t.b)
		if t.op == OSlt {
			return B("(< " + a.s + " " + b.s + ")")
		}
		return B("(<= " + a.s + " " + b.s + ")")
	case OUlt, OUle:
		a, b := s.tr(t.a), s.tr(t.b)
		x, y := s.uview(a, t.a.w), s.uview(b, t.b.w)
		if t.op == OUlt {
			return B("(< " + x + " " + y + ")")
		}
		return B("(<= " + x + " " + y + ")")
	case OAdd:
		a, b := s.tr(t.a), s.tr(t.b)
		s.note(w)
		return s.wrapped("(+ "+a.s+" "+b.s+")", new(big.Int).Add(bi(a.lo), bi(b.lo)), new(big.Int).Add(bi(a.hi), bi(b.hi)), w)
	case OSub:
		a, b := s.tr(t.a), s.tr(t.b)
		s.note(w)
		return s.wrapped("(- "+a.s+" "+b.s+")", new(big.Int).Sub(bi(a.lo), bi(b.hi)), new(big.Int).Sub(bi(a.hi), bi(b.lo)), w)
	case ONeg:
		a := s.tr(t.a)
		s.note(w)
		return s.wrapped("(- "+a.s+")", new(big.Int).Neg(bi(a.hi)), new(big.Int).Neg(bi(a.lo)), w)
	case OBNot:
		a := s.tr(t.a)
		return s.mkI("(- (- 1) "+a.s+")", -1-a.hi, -1-a.lo)
	case OMul:
		a, b := s.tr(t.a), s.tr(t.b)
		if !t.a.isC() && !t.b.isC() {
			panic(liaBad{})
		}
		s.note(w)
		var lo, hi *big.Int
		for _, x := range []int64{a.lo, a.hi} {
			for _, y := range []int64{b.lo, b.hi} {
				p := new(big.Int).Mul(bi(x), bi(y))
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return s.wrapped("(* "+a.s+" "+b.s+")", lo, hi, w)
	case OShl:
		if !t.b.isC() {
			panic(liaBad{})
		}
		a := s.tr(t.a)
		k := t.b.val
		if k >= uint64(w) {
			return iTerm{"0", 0, 0}
		}
		f := new(big.Int).Lsh(bi(1), uint(k))
		return s.wrapped("(* "+a.s+" "+f.String()+")", new(big.Int).Mul(bi(a.lo), f), new(big.Int).Mul(bi(a.hi), f), w)
	case OLshr, OAshr:
		if !t.b.isC() || t.b.val >= uint64(w) {
			panic(liaBad{})
		}
		a := s.tr(t.a)
		k := uint8(t.b.val)
		if k == 0 {
			return a
		}
		if t.op == OAshr || a.lo >= 0 {
			return s.mkI("(div "+a.s+" "+pow2(k)+")", a.lo>>k, a.hi>>k)
		}
		return s.mkI("(div "+s.uview(a, w)+" "+pow2(k)+")", 0, int64(mask(w)>>k))
	case OUDiv, OURem, OSDiv, OSRem:
		if !t.b.isC() || t.b.sval() <= 0 {
			panic(liaBad{})
		}
		a := s.tr(t.a)
		d := t.b.sval()
		ds := num(d)
		if a.lo >= 0 {
			if t.op == OUDiv || t.op == OSDiv {
				return s.mkI("(div "+a.s+" "+ds+")", a.lo/d, a.hi/d)
			}
			return s.mkI("(mod "+a.s+" "+ds+")", 0, min(d-1, a.hi))
		}
		switch t.op {
		case OUDiv:
			if d == 1 {
				return a
			}
			u := s.uview(a, w)
			return s.mkI("(div "+u+" "+ds+")", 0, int64(mask(w)/uint64(d)))
		case OURem:
			return s.mkI("(mod "+s.uview(a, w)+" "+ds+")", 0, d-1)
		case OSDiv:
			return s.mkI(fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.s, a.s, ds, a.s, ds), a.lo/d, max(a.hi/d, 0))
		case OSRem:
			return s.mkI(fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", a.s, a.s, ds, a.s, ds), -(d - 1), d-1)
		}
	case OBAnd:
		x, k := t.a, t.b
		if x.isC() {
			x, k = k, x
		}
		if k.isC() && k.val != 0 && k.val&(k.val+1) == 0 {
			a := s.tr(x)
			nb := uint8(0)
			for k.val>>nb != 0 {
				nb++
			}
			if nb >= 63 {
				panic(liaBad{})
			}
			if a.lo >= 0 && a.hi <= int64(k.val) {
				return a
			}
			return s.mkI("(mod "+a.s+" "+pow2(nb)+")", 0, int64(k.val))
		}
	case OConcat:
		a, b := s.tr(t.a), s.tr(t.b)
		wb := t.b.w
		if w > 62 {
			panic(liaBad{})
		}
		return s.mkI("(+ (* "+a.s+" "+pow2(wb)+") "+s.uview(b, wb)+")", a.lo<<wb, a.hi<<wb+int64(mask(wb)))
	case OExtract:
		hi, lo := uint8(t.val>>8), uint8(t.val&0xff)
		a := s.tr(t.a)
		if hi-lo+1 == t.a.w {
			return a
		}
		e, l, h := a.s, a.lo, a.hi
		if lo > 0 {
			e = s.name("Int", "(div "+e+" "+pow2(lo)+")")
			l, h = l>>lo, h>>lo
		}
		return s.wrapped("(+ "+e+" 0)", bi(l), bi(h), w)
	case OZext:
		a := s.tr(t.a)
		if a.lo >= 0 {
			return a
		}
		return s.mkI("(+ 0 "+s.uview(a, t.a.w)+")", 0, int64(mask(t.a.w)))
	case OSext:
		return s.tr(t.a)
	}
	panic(liaBad{})
}

func (s *IntSolver) note(w uint8) {
	if w >= 16 {
		s.cur.arith++
	}
}

// learn records the variable bounds a fact states.
func (s *IntSolver) learn(f *Term, pos bool) {
	set := func(v *Term, lo, hi int64) {
		old, had := s.env[v]
		n := old
		if !had {
			n = fullIval(v.w)
		}
		if lo > n.lo {
			n.lo = lo
		}
		if hi < n.hi {
			n.hi = hi
		}
		if n.lo > n.hi || (had && n == old) {
			return
		}
		s.cur.env = append(s.cur.env, envUndo{v, old, had})
		s.env[v] = n
	}
	switch f.op {
	case OAnd:
		if pos {
			s.learn(f.a, true)
			s.learn(f.b, true)
		}
	case OOr:
		if !pos {
			s.learn(f.a, false)
			s.learn(f.b, false)
		}
	case ONot:
		s.learn(f.a, !pos)
	case OEq:
		if pos && f.a.w > 0 {
			if f.a.op == OVar && f.b.isC() {
				set(f.a, f.b.sval(), f.b.sval())
			} else if f.b.op == OVar && f.a.isC() {
				set(f.b, f.a.sval(), f.a.sval())
			}
		}
	case OSlt, OSle:
		lt := f.op == OSlt
		a, b := f.a, f.b
		if !pos { // not (a < b) == b <= a
			a, b = b, a
			lt = !lt
		}
		d := int64(0)
		if lt {
			d = 1
		}
		if a.op == OVar && b.isC() && b.sval() != math.MinInt64 {
			set(a, math.MinInt64, b.sval()-d)
		} else if b.op == OVar && a.isC() && a.sval() != math.MaxInt64 {
			set(b, a.sval()+d, math.MaxInt64)
		}
	case OUlt, OUle:
		if !pos {
			return
		}
		if f.a.op == OVar && f.b.isC() && f.b.sval() > 0 {
			d := int64(0)
			if f.op == OUlt {
				d = 1
			}
			set(f.a, 0, f.b.sval()-d)
		}
	}
}

func (s *IntSolver) popTo(n int) {
	if k := len(s.levels) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
	}
	for len(s.levels) > n {
		l := s.levels[len(s.levels)-1]
		s.levels = s.levels[:len(s.levels)-1]
		for i := len(l.env) - 1; i >= 0; i-- {
			u := l.env[i]
			if u.had {
				s.env[u.v] = u.old
			} else {
				delete(s.env, u.v)
			}
		}
		for _, t := range l.memo {
			delete(s.memo, t)
		}
		for _, v := range l.vars {
			delete(s.seenV, v)
		}
		s.arith -= l.arith
		s.nabs -= l.nabs
		if l.bad {
			s.nbad--
		}
	}
}

func (s *IntSolver) pushFact(f *Term) {
	l := &iLevel{fact: f}
	s.cur = l
	s.levels = append(s.levels, l)
	body := "true"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(liaBad); !ok {
					panic(r)
				}
				l.bad = true
				s.nbad++
			}
		}()
		s.learn(f, true)
		body = s.tr(f).s
	}()
	s.send("(push 1)\n")
	for _, v := range l.vars {
		if v.w > 0 {
			f := fullIval(v.w)
			s.send(fmt.Sprintf("(assert (and (<= %s |%s|) (<= |%s| %s)))\n", num(f.lo), v.name, v.name, num(f.hi)))
		}
	}
	for _, a := range l.abs {
		s.send(a)
	}
	for _, u := range l.env { // the fact was translated under the bounds it implies, so they are asserted too
		if s.decl[u.v] {
			iv := s.env[u.v]
			s.send(fmt.Sprintf("(assert (and (<= %s |%s|) (<= |%s| %s)))\n", num(iv.lo), u.v.name, u.v.name, num(iv.hi)))
		}
	}
	s.send("(assert " + body + ")\n")
	s.arith += l.arith
}

// Check decides facts ∧ extra; ok is false if the query is outside the integer encoding or not worth it.
func (s *IntSolver) Check(facts []*Term, extra *Term, wantModel bool, ms int) (res Sat, model map[string]uint64, ok bool) {
	if s.dead || s.ndef > 200000 {
		s.Close()
		s.start()
	}
	i := 0
	for i < len(s.levels) && i < len(facts) && s.levels[i].fact == facts[i] {
		i++
	}
	s.popTo(i)
	for ; i < len(facts); i++ {
		s.pushFact(facts[i])
	}
	if s.nbad > 0 {
		return Unknown, nil, false
	}
	if extra != nil {
		s.pushFact(extra)
		defer func() {
			if !s.dead {
				s.popTo(len(facts))
			}
		}()
	}
	if s.nbad > 0 || s.arith == 0 {
		return Unknown, nil, false
	}
	if ms != s.curTO {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", ms))
		s.curTO = ms
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	line = strings.TrimSpace(line)
	switch {
	case err != nil:
		s.dead = true
		return Unknown, nil, false
	case line == "sat":
		res = IsSat
	case line == "unsat":
		return IsUnsat, nil, true
	case strings.HasPrefix(line, "(error"):
		s.dead = true
		fmt.Println("# solver error:", line)
		return Unknown, nil, false
	default:
		return Unknown, nil, true
	}
	if wantModel || s.nabs > 0 {
		model = map[string]uint64{}
		var vs []*Term
		for _, l := range s.levels {
			vs = append(vs, l.vars...)
		}
		for i := 0; i < len(vs); i += 50 {
			j := min(i+50, len(vs))
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vs[i:j] {
				sb.WriteString("|" + v.name + "| ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			s.parseVals(s.readSexp(), vs[i:j], model)
		}
	}
	if s.nabs > 0 || wantModel {
		memo := map[*Term]uint64{}
		for _, l := range s.levels {
			if l.fact.eval(model, memo) != 1 {
				return Unknown, nil, true
			}
		}
	}
	return res, model, true
}

func (s *IntSolver) readSexp() string {
	t := &Solver{out: s.out}
	r := t.readSexp()
	if t.dead {
		s.dead = true
	}
	return r
}

func (s *IntSolver) parseVals(txt string, vs []*Term, m map[string]uint64) {
	for _, v := range vs {
		k := strings.Index(txt, "(|"+v.name+"| ")
		l := len(v.name) + 4
		if k < 0 {
			k = strings.Index(txt, "("+v.name+" ")
			l = len(v.name) + 2
		}
		if k < 0 {
			continue
		}
		x := strings.TrimSpace(txt[k+l:])
		switch {
		case strings.HasPrefix(x, "true"):
			m[v.name] = 1
			continue
		case strings.HasPrefix(x, "false"):
			m[v.name] = 0
			continue
		}
		neg := false
		if strings.HasPrefix(x, "(") {
			neg = true
			x = strings.TrimSpace(strings.TrimLeft(x, "(- "))
		}
		j := 0
		for j < len(x) && x[j] >= '0' && x[j] <= '9' {
			j++
		}
		u, _ := strconv.ParseUint(x[:j], 10, 64)
		if neg {
			u = -u
		}
		m[v.name] = u & mask(v.w)
	}
}
