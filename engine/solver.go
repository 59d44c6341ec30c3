package main

// Incremental SMT-LIB solver process + one-shot portfolio fallback.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unknown Sat = iota
	IsSat
	IsUnsat
)

func (s Sat) String() string { return [...]string{"unknown", "sat", "unsat"}[s] }

var noInts = os.Getenv("VERIF_NOINTS") != ""

type SolverStats struct {
	IntN                                       int64
	Queries, SatN, UnsatN, UnknownN, Fallbacks int64
	Nanos                                      int64
	MaxNanos                                   int64
}

var gStats SolverStats
var slowN int64

func (s *SolverStats) snapshot() map[string]interface{} {
	return map[string]interface{}{
		"queries": atomic.LoadInt64(&s.Queries), "sat": atomic.LoadInt64(&s.SatN), "unsat": atomic.LoadInt64(&s.UnsatN),
		"unknown": atomic.LoadInt64(&s.UnknownN), "decided_by_integer_encoding": atomic.LoadInt64(&s.IntN), "portfolio_fallbacks": atomic.LoadInt64(&s.Fallbacks),
		"solver_s": float64(atomic.LoadInt64(&s.Nanos)) / 1e9, "max_query_s": float64(atomic.LoadInt64(&s.MaxNanos)) / 1e9,
	}
}

func noteStat(r Sat, d time.Duration) {
	atomic.AddInt64(&gStats.Queries, 1)
	atomic.AddInt64(&gStats.Nanos, int64(d))
	for {
		m := atomic.LoadInt64(&gStats.MaxNanos)
		if int64(d) <= m || atomic.CompareAndSwapInt64(&gStats.MaxNanos, m, int64(d)) {
			break
		}
	}
	switch r {
	case IsSat:
		atomic.AddInt64(&gStats.SatN, 1)
	case IsUnsat:
		atomic.AddInt64(&gStats.UnsatN, 1)
	default:
		atomic.AddInt64(&gStats.UnknownN, 1)
	}
}

type Solver struct {
	ctx     *TermCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.Closer
	out     *bufio.Reader
	defined map[int32]bool
	ndef    int
	stack   []*Term // asserted facts, one push level each
	TimeMS  int
	dead    bool
	vars    []*Term
	quick   int // >0: timeout (ms) of the current queries, no portfolio
	curTO   int
	ints    *IntSolver
	ints2   *IntSolver
	vmemo   map[*Term][]int32
}

func NewSolver(ctx *TermCtx) *Solver {
	s := &Solver{ctx: ctx, TimeMS: 10000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3-new: %v", err))
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inc = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.ndef = 0
	s.stack = nil
	s.dead = false
	s.vars = nil
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.curTO = 0
}

func (s *Solver) Close() {
	if s.ints2 != nil {
		s.ints2.Close()
		s.ints2 = nil
	}
	if s.ints != nil {
		s.ints.Close()
		s.ints = nil
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) { s.in.WriteString(x) }

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func body(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, ref(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// emitDefs writes declarations/definitions for t (post-order), skipping those in done.
func emitDefs(t *Term, done map[int32]bool, w func(string), vars *[]*Term) {
	if t.op == OConst || done[t.id] {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		kids := [3]*Term{f.t.a, f.t.b, f.t.c}
		pushed := false
		for f.i < 3 {
			k := kids[f.i]
			f.i++
			if k != nil && k.op != OConst && !done[k.id] {
				st = append(st, fr{k, 0})
				pushed = true
				break
			}
		}
		if pushed {
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if done[x.id] {
			continue
		}
		done[x.id] = true
		if x.op == OVar {
			w("(declare-const |" + x.name + "| " + sortOf(x) + ")\n")
			if vars != nil {
				*vars = append(*vars, x)
			}
		} else {
			w("(define-fun t" + strconv.Itoa(int(x.id)) + " () " + sortOf(x) + " " + body(x) + ")\n")
		}
	}
}

func (s *Solver) define(t *Term) {
	n0 := len(s.defined)
	emitDefs(t, s.defined, s.send, &s.vars)
	s.ndef += len(s.defined) - n0
}

// align makes the asserted stack equal to facts.
func (s *Solver) align(facts []*Term) {
	if s.dead || s.ndef > 150000 {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.start()
	}
	i := 0
	for i < len(s.stack) && i < len(facts) && s.stack[i] == facts[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:i]
	}
	for ; i < len(facts); i++ {
		s.define(facts[i])
		s.send("(push 1)\n(assert " + ref(facts[i]) + ")\n")
		s.stack = append(s.stack, facts[i])
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "error-eof"
	}
	return strings.TrimSpace(l)
}

// Check decides facts ∧ extra. If wantModel, the model of vars in the query is returned.
func (s *Solver) Check(facts []*Term, extra *Term, wantModel bool) (Sat, map[string]uint64) {
	if extra != nil && extra.isFalse() {
		return IsUnsat, nil
	}
	t0 := time.Now()
	if !noInts {
		if s.ints == nil {
			s.ints = NewIntSolver()
		}
		ms := 3000
		if s.quick > 0 {
			ms = s.quick
		}
		if r, mod, ok := s.ints.Check(facts, extra, wantModel, ms); ok && r != Unknown {
			atomic.AddInt64(&gStats.IntN, 1)
			noteStat(r, time.Since(t0))
			return r, mod
		}
	}
	if extra != nil {
		// the facts that share no variable with the goal, even indirectly, cannot change the answer of
		// a satisfiable path: decide the related part alone
		if rel, rest := s.slice(facts, extra); len(rest) > 0 {
			res, model := s.checkSlice(rel, extra, wantModel)
			if res == IsSat && wantModel {
				var m2 map[string]uint64
				res, m2 = s.checkSlice(rest, nil, true)
				if res == IsSat {
					if model == nil {
						model = map[string]uint64{}
					}
					for k, v := range m2 {
						model[k] = v
					}
				}
			}
			noteStat(res, time.Since(t0))
			return res, model
		}
	}
	res, model := s.bv(facts, extra, wantModel)
	noteStat(res, time.Since(t0))
	return res, model
}

func (s *Solver) checkSlice(facts []*Term, extra *Term, wantModel bool) (Sat, map[string]uint64) {
	if !noInts {
		if s.ints2 == nil {
			s.ints2 = NewIntSolver()
		}
		ms := 3000
		if s.quick > 0 {
			ms = s.quick
		}
		if r, mod, ok := s.ints2.Check(facts, extra, wantModel, ms); ok && r != Unknown {
			atomic.AddInt64(&gStats.IntN, 1)
			return r, mod
		}
	}
	return s.bv(facts, extra, wantModel)
}

// varsOf returns the ids of the variables t mentions.
func (s *Solver) varsOf(t *Term) []int32 {
	if r, ok := s.vmemo[t]; ok {
		return r
	}
	var vs []*Term
	emitDefs(t, map[int32]bool{}, func(string) {}, &vs)
	r := make([]int32, len(vs))
	for i, v := range vs {
		r[i] = v.id
	}
	if s.vmemo == nil {
		s.vmemo = map[*Term][]int32{}
	}
	s.vmemo[t] = r
	return r
}

func (s *Solver) slice(facts []*Term, extra *Term) (rel, rest []*Term) {
	in := map[int32]bool{}
	for _, v := range s.varsOf(extra) {
		in[v] = true
	}
	used := make([]bool, len(facts))
	for ch := true; ch; {
		ch = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			vs := s.varsOf(f)
			for _, v := range vs {
				if in[v] {
					used[i], ch = true, true
					for _, u := range vs {
						in[u] = true
					}
					break
				}
			}
		}
	}
	for i, f := range facts {
		if used[i] {
			rel = append(rel, f)
		} else {
			rest = append(rest, f)
		}
	}
	return
}

func (s *Solver) bv(facts []*Term, extra *Term, wantModel bool) (Sat, map[string]uint64) {
	s.align(facts)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + ref(extra) + ")\n")
	}
	to := s.TimeMS
	if s.quick > 0 {
		to = s.quick
	}
	if to != s.curTO {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", to))
		s.curTO = to
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	res := Unknown
	line := s.readLine()
	switch {
	case line == "sat":
		res = IsSat
	case line == "unsat":
		res = IsUnsat
	case strings.HasPrefix(line, "(error"):
		s.dead = true
		fmt.Println("# solver error:", line)
	}
	var model map[string]uint64
	if res == IsSat && wantModel {
		model = s.getModel(facts, extra)
	}
	if extra != nil && !s.dead {
		s.send("(pop 1)\n")
	}
	if res == Unknown && s.quick == 0 {
		atomic.AddInt64(&gStats.Fallbacks, 1)
		res, model = portfolio(s.ctx, facts, extra, time.Duration(s.TimeMS*6)*time.Millisecond)
	}
	return res, model
}

func collectVars(ts []*Term) []*Term {
	var vs []*Term
	done := map[int32]bool{}
	for _, t := range ts {
		if t != nil {
			emitDefs(t, done, func(string) {}, &vs)
		}
	}
	return vs
}

func (s *Solver) getModel(facts []*Term, extra *Term) map[string]uint64 {
	vs := collectVars(append(append([]*Term{}, facts...), extra))
	m := map[string]uint64{}
	if len(vs) == 0 {
		return m
	}
	for i := 0; i < len(vs); i += 50 {
		j := min(i+50, len(vs))
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vs[i:j] {
			sb.WriteString("|" + v.name + "| ")
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		s.in.Flush()
		txt := s.readSexp()
		parseModel(txt, m)
	}
	return m
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	inq := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
				started = true
			} else if b == ')' {
				depth--
			}
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return sb.String()
		}
	}
}

func parseModel(txt string, m map[string]uint64) {
	// ((|a| #x00..) (b true) (c (_ bv3 4)))
	i := 0
	for i < len(txt) {
		for i < len(txt) && txt[i] != '(' {
			i++
		}
		i++
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '(') {
			i++
		}
		if i >= len(txt) {
			return
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			if j < 0 {
				return
			}
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for j < len(txt) && txt[j] != ' ' && txt[j] != ')' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		if i >= len(txt) {
			return
		}
		if txt[i] == '(' { // (_ bvN w)
			j := strings.IndexByte(txt[i:], ')')
			f := strings.Fields(txt[i+1 : i+j])
			if len(f) == 3 {
				v, _ := strconv.ParseUint(strings.TrimPrefix(f[1], "bv"), 10, 64)
				m[name] = v
			}
			i += j + 1
		} else {
			j := i
			for j < len(txt) && txt[j] != ')' {
				j++
			}
			v := strings.TrimSpace(txt[i:j])
			switch {
			case v == "true":
				m[name] = 1
			case v == "false":
				m[name] = 0
			case strings.HasPrefix(v, "#x"):
				u, _ := strconv.ParseUint(v[2:], 16, 64)
				m[name] = u
			case strings.HasPrefix(v, "#b"):
				u, _ := strconv.ParseUint(v[2:], 2, 64)
				m[name] = u
			}
			i = j + 1
		}
	}
}

// portfolio runs the query one-shot on several back ends and returns the first definite answer.
func portfolio(ctx *TermCtx, facts []*Term, extra *Term, limit time.Duration) (Sat, map[string]uint64) {
	var sb bytes.Buffer
	done := map[int32]bool{}
	var vs []*Term
	all := append([]*Term{}, facts...)
	if extra != nil {
		all = append(all, extra)
	}
	if d := os.Getenv("VERIF_SLOW"); d != "" {
		defer func() { os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, atomic.AddInt64(&slowN, 1)), sb.Bytes(), 0o644) }()
	}
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	for _, t := range all {
		emitDefs(t, done, func(x string) { sb.WriteString(x) }, &vs)
	}
	for _, t := range all {
		sb.WriteString("(assert " + ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(vs) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vs {
			sb.WriteString("|" + v.name + "| ")
		}
		sb.WriteString("))\n")
	}
	c, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmds := [][]string{
		{"cvc5", "--lang=smt2", "--produce-models"},
		{"z3-new", "-in", "-smt2"},
		{"z3", "-in", "-smt2"},
	}
	type ans struct {
		r Sat
		m map[string]uint64
	}
	ch := make(chan ans, len(cmds))
	for _, a := range cmds {
		go func(a []string) {
			cmd := exec.CommandContext(c, a[0], a[1:]...)
			cmd.Stdin = bytes.NewReader(sb.Bytes())
			out, _ := cmd.Output()
			txt := string(out)
			switch {
			case strings.HasPrefix(txt, "sat"):
				m := map[string]uint64{}
				parseModel(txt[3:], m)
				ch <- ans{IsSat, m}
			case strings.HasPrefix(txt, "unsat"):
				ch <- ans{IsUnsat, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}(a)
	}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			return r.r, r.m
		}
	}
	return Unknown, nil
}
