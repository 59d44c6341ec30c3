//verif:pkg internal/ratelimiter/persistence

package persistence

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"vsa/internal/zzverif/rt"
)

// A reading of the SQL subset that idempotent counter updates need, behind the real database/sql: tables with a primary
// key, INSERT .. ON CONFLICT, UPDATE, DELETE, SELECT, subqueries, EXISTS, RETURNING, WITH. Statements outside the subset
// are not judged (zzSkipP22).

func zzSkipP22(why string) { rt.Assume(false) }

type zzColP22 struct {
	null bool
	str  string
	num  int64
	isn  bool
	b    bool
}

type zzRowP22 struct{ col map[string]zzColP22 }

type zzTabP22 struct {
	name string
	pk   string
	rows []zzRowP22
}

type zzDBP22 struct {
	tabs    []*zzTabP22
	open    bool
	aborted bool // a statement of the open transaction has failed
	saved   [][]zzRowP22
	execs   int
	fault   func(what string) error
	ackLost bool
}

func zzNewDBP22() *zzDBP22 {
	return &zzDBP22{tabs: []*zzTabP22{{name: "counters", pk: "key"}, {name: "applied_commits", pk: "commit_id"}}}
}

func (d *zzDBP22) tab(name string) *zzTabP22 {
	for _, t := range d.tabs {
		if t.name == name {
			return t
		}
	}
	zzSkipP22("unknown table")
	return nil
}

func zzCopyP22(rows []zzRowP22) []zzRowP22 {
	var r []zzRowP22
	for _, x := range rows {
		c := map[string]zzColP22{}
		for k, v := range x.col {
			c[k] = v
		}
		r = append(r, zzRowP22{c})
	}
	return r
}

func (d *zzDBP22) row(tab, key string) map[string]zzColP22 {
	t := d.tab(tab)
	for _, r := range t.rows {
		if r.col[t.pk].str == key {
			return r.col
		}
	}
	return nil
}

func (d *zzDBP22) addCounter(key string, scalar int64) {
	t := d.tab("counters")
	t.rows = append(t.rows, zzRowP22{map[string]zzColP22{"key": {str: key}, "scalar": {num: scalar, isn: true}, "last_token": {null: true}}})
}

func (d *zzDBP22) begin() error {
	if d.fault != nil {
		if err := d.fault("begin"); err != nil {
			return err
		}
	}
	rt.Assert(!d.open, "one transaction at a time")
	d.open, d.aborted, d.saved = true, false, nil
	for _, t := range d.tabs {
		d.saved = append(d.saved, zzCopyP22(t.rows))
	}
	return nil
}

func (d *zzDBP22) rollback() {
	for i, t := range d.tabs {
		t.rows = d.saved[i]
	}
	d.open = false
}

func (d *zzDBP22) commit() error {
	if d.fault != nil {
		if err := d.fault("commit"); err != nil {
			if d.ackLost && !d.aborted {
				d.open = false
			} else {
				d.rollback()
			}
			return err
		}
	}
	if d.aborted {
		d.rollback()
		return errors.New("the transaction was aborted by a failed statement")
	}
	d.open = false
	return nil
}

func (d *zzDBP22) exec(query string, args []zzColP22) (*zzQueryP22, int64, error) {
	if d.open && d.aborted {
		return nil, 0, errors.New("current transaction is aborted")
	}
	if d.fault != nil {
		if err := d.fault("exec"); err != nil {
			d.aborted = true
			return nil, 0, err
		}
	}
	q := &zzQueryP22{toks: zzLexP22(query), args: args, db: d}
	n, err := q.run()
	if err != nil {
		d.aborted = true
	}
	return q, n, err
}

func zzLexP22(s string) []string {
	var t []string
	word := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' || c == '.'
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ';':
			i++
		case word(c):
			j := i
			for j < len(s) && word(s[j]) {
				j++
			}
			w := []byte(s[i:j])
			for k, b := range w {
				if b >= 'A' && b <= 'Z' {
					w[k] = b + 32
				}
			}
			t = append(t, string(w))
			i = j
		default:
			if i+1 < len(s) {
				if d := s[i : i+2]; d == "<=" || d == ">=" || d == "<>" || d == "!=" {
					t = append(t, d)
					i += 2
					continue
				}
			}
			t = append(t, s[i:i+1])
			i++
		}
	}
	return append(t, "")
}

// zzEnvP22 is one table's current row, visible under its name or alias.
type zzEnvP22 struct {
	name, alias string
	row         map[string]zzColP22
}

type zzQueryP22 struct {
	toks  []string
	i     int
	args  []zzColP22
	db    *zzDBP22
	env   []zzEnvP22
	ctes  []*zzTabP22
	cols  []string
	out   [][]zzColP22
	wrote []string
	reads []string
}

func (q *zzQueryP22) next() string {
	if q.i >= len(q.toks) {
		zzSkipP22("end of statement")
	}
	q.i++
	return q.toks[q.i-1]
}
func (q *zzQueryP22) is(ws ...string) bool {
	for k, w := range ws {
		if q.i+k >= len(q.toks) || q.toks[q.i+k] != w {
			return false
		}
	}
	q.i += len(ws)
	return true
}
func (q *zzQueryP22) want(w ...string) {
	if !q.is(w...) {
		zzSkipP22("syntax outside the subset")
	}
}

// end returns the position of the token that closes the statement or subquery at the cursor.
func (q *zzQueryP22) end() int {
	depth := 0
	for k := q.i; k < len(q.toks); k++ {
		switch q.toks[k] {
		case "(":
			depth++
		case ")":
			if depth == 0 {
				return k
			}
			depth--
		case "":
			return k
		}
	}
	return len(q.toks) - 1
}

// find returns the first position of a word at this nesting level before end, or -1.
func (q *zzQueryP22) find(word string, end int) int {
	depth := 0
	for k := q.i; k < end; k++ {
		switch q.toks[k] {
		case "(":
			depth++
		case ")":
			depth--
		case word:
			if depth == 0 {
				return k
			}
		}
	}
	return -1
}

func (q *zzQueryP22) table(name string) *zzTabP22 {
	for _, t := range q.ctes {
		if t.name == name {
			return t
		}
	}
	q.reads = append(q.reads, name)
	return q.db.tab(name)
}

// run executes a statement; a WITH part's effects must not be read by the main statement (Postgres shows both the same
// snapshot).
func (q *zzQueryP22) run() (int64, error) {
	if q.is("with") {
		for {
			name := q.next()
			q.want("as", "(")
			end := q.end()
			q.cols, q.out = nil, nil
			if _, err := q.stmt(); err != nil {
				return 0, err
			}
			if q.i != end {
				zzSkipP22("with")
			}
			q.want(")")
			t := &zzTabP22{name: name}
			for _, r := range q.out {
				m := map[string]zzColP22{}
				for i, c := range q.cols {
					m[c] = r[i]
				}
				t.rows = append(t.rows, zzRowP22{m})
			}
			q.ctes = append(q.ctes, t)
			if !q.is(",") {
				break
			}
		}
		q.cols, q.out = nil, nil
		w := len(q.wrote)
		q.reads = nil
		n, err := q.stmt()
		for _, x := range q.wrote[:w] {
			for _, y := range q.reads {
				if x == y {
					zzSkipP22("a statement that reads what its WITH part writes")
				}
			}
		}
		if err == nil {
			q.want("")
		}
		return n, err
	}
	n, err := q.stmt()
	if err == nil {
		q.want("")
	}
	return n, err
}

func (q *zzQueryP22) stmt() (int64, error) {
	switch q.next() {
	case "insert":
		q.want("into")
		return q.insert()
	case "update":
		return q.update()
	case "delete":
		q.want("from")
		return q.delete()
	case "select":
		q.cols, q.out = q.sel()
		return int64(len(q.out)), nil
	}
	zzSkipP22("statement outside the subset")
	return 0, nil
}

func (q *zzQueryP22) alias(stop ...string) string {
	if q.is("as") {
		return q.next()
	}
	t := q.toks[q.i]
	for _, s := range append(stop, "where", "set", "", ")", ",", "for", "limit", "returning", "order", "group", "join", "inner", "left", "cross", "union") {
		if t == s {
			return ""
		}
	}
	q.i++
	return t
}

// sel evaluates a SELECT whose keyword has been read, leaving the cursor at the token that ends it.
func (q *zzQueryP22) sel() ([]string, [][]zzColP22) {
	end := q.end()
	list := q.i
	from := q.find("from", end)
	env := len(q.env)
	var cols []string
	var out [][]zzColP22
	item := func() {
		q.i = list
		cols = nil
		var r []zzColP22
		for {
			name := q.toks[q.i]
			if q.is("*") {
				zzSkipP22("select *")
			}
			if q.is("count", "(", "*", ")") {
				zzSkipP22("aggregate")
			}
			r = append(r, q.or())
			if q.is("as") {
				name = q.next()
			}
			cols = append(cols, name)
			if !q.is(",") {
				break
			}
		}
		out = append(out, r)
	}
	if from < 0 {
		if w := q.find("where", end); w >= 0 {
			q.i = w + 1
			v := q.or()
			if q.i != end {
				zzSkipP22("select")
			}
			if v.null || !v.b {
				q.i = end
				return nil, nil
			}
			item()
			if q.i != w {
				zzSkipP22("select")
			}
		} else {
			item()
			if q.i != end {
				zzSkipP22("select")
			}
		}
		q.i = end
		return cols, out
	}
	q.i = from + 1
	name := q.next()
	t := q.table(name)
	al := q.alias()
	where := q.i
	limit := int64(-1)
	for _, r := range t.rows {
		q.env = append(q.env[:env:env], zzEnvP22{name, al, r.col})
		q.i = where
		ok := true
		if q.is("where") {
			v := q.or()
			ok = !v.null && v.b
		}
		for q.i < end {
			switch {
			case q.is("limit"):
				limit = q.prim().num
			case q.is("for", "update"), q.is("for", "share"), q.is("for", "no", "key", "update"):
			default:
				zzSkipP22("select")
			}
		}
		if ok && limit != int64(len(out)) {
			item()
			if q.i != from {
				zzSkipP22("select list")
			}
		}
	}
	q.env = q.env[:env]
	q.i = end
	return cols, out
}

// returning collects the RETURNING list for one affected row.
func (q *zzQueryP22) returning(row map[string]zzColP22, t *zzTabP22, al string) {
	var r []zzColP22
	q.cols = nil
	n := len(q.env)
	q.env = append(q.env, zzEnvP22{t.name, al, row})
	for {
		name := q.toks[q.i]
		if q.is("*") {
			zzSkipP22("returning *")
		}
		r = append(r, q.or())
		if q.is("as") {
			name = q.next()
		}
		q.cols = append(q.cols, name)
		if !q.is(",") {
			break
		}
	}
	q.env = q.env[:n]
	q.out = append(q.out, r)
}

func (q *zzQueryP22) update() (int64, error) {
	end := q.end()
	t := q.table(q.next())
	q.wrote = append(q.wrote, t.name)
	al := q.alias()
	q.want("set")
	start := q.i
	env := len(q.env)
	type change struct {
		row map[string]zzColP22
		upd map[string]zzColP22
	}
	var todo []change
	ret := -1
	if q.find("from", end) >= 0 {
		zzSkipP22("update from")
	}
	for i := range t.rows {
		q.i = start
		q.env = append(q.env[:env:env], zzEnvP22{t.name, al, t.rows[i].col})
		upd := q.sets()
		ok := true
		if q.is("where") {
			v := q.or()
			ok = !v.null && v.b
		}
		if q.is("returning") {
			ret = q.i
		} else if q.i != end {
			zzSkipP22("update")
		}
		if ok {
			todo = append(todo, change{t.rows[i].col, upd})
		}
	}
	q.env = q.env[:env]
	for _, x := range todo {
		for k, v := range x.upd {
			x.row[k] = v
		}
		if ret >= 0 {
			q.i = ret
			q.returning(x.row, t, al)
		}
	}
	q.i = end
	return int64(len(todo)), nil
}

func (q *zzQueryP22) sets() map[string]zzColP22 {
	upd := map[string]zzColP22{}
	for {
		c := q.next()
		q.want("=")
		upd[c] = q.sum()
		if !q.is(",") {
			return upd
		}
	}
}

func (q *zzQueryP22) delete() (int64, error) {
	end := q.end()
	t := q.table(q.next())
	q.wrote = append(q.wrote, t.name)
	al := q.alias()
	where := q.i
	env := len(q.env)
	var keep []zzRowP22
	n := int64(0)
	for _, r := range t.rows {
		q.i = where
		q.env = append(q.env[:env:env], zzEnvP22{t.name, al, r.col})
		ok := true
		if q.is("where") {
			v := q.or()
			ok = !v.null && v.b
		}
		if q.i != end {
			zzSkipP22("delete")
		}
		if ok {
			n++
		} else {
			keep = append(keep, r)
		}
	}
	q.env = q.env[:env]
	t.rows = keep
	q.i = end
	return n, nil
}

func (q *zzQueryP22) insert() (int64, error) {
	end := q.end()
	t := q.table(q.next())
	q.wrote = append(q.wrote, t.name)
	al := q.alias("(", "values", "select")
	var cols []string
	q.want("(")
	for !q.is(")") {
		cols = append(cols, q.next())
		q.is(",")
	}
	var vals [][]zzColP22
	if q.is("values") {
		for q.is("(") {
			var r []zzColP22
			for !q.is(")") {
				r = append(r, q.or())
				q.is(",")
			}
			vals = append(vals, r)
			q.is(",")
		}
	} else {
		q.want("select")
		e := q.find("on", end)
		if x := q.find("returning", end); x >= 0 && (e < 0 || x < e) {
			e = x
		}
		if e < 0 {
			e = end
		}
		save := q.toks
		q.toks = append(append([]string{}, q.toks[:e]...), "")
		_, vals = q.sel()
		q.toks = save
		q.i = e
	}
	kind := 0 // 1: do nothing, 2: do update
	set := 0
	if q.is("on", "conflict") {
		if q.is("(") {
			if q.next() != t.pk {
				zzSkipP22("conflict target")
			}
			q.want(")")
		}
		q.want("do")
		if q.is("nothing") {
			kind = 1
		} else {
			q.want("update", "set")
			kind, set = 2, q.i
		}
	}
	ret := q.find("returning", end)
	if kind != 2 && ret < 0 && q.i != end || kind != 2 && ret >= 0 && q.i != ret {
		zzSkipP22("insert")
	}
	n := int64(0)
	env := len(q.env)
	for _, v := range vals {
		row := map[string]zzColP22{}
		for _, c := range []string{"key", "scalar", "last_token", "commit_id", "vc"} {
			row[c] = zzColP22{null: true}
		}
		if len(v) != len(cols) {
			zzSkipP22("insert")
		}
		for i, c := range cols {
			row[c] = v[i]
		}
		if row[t.pk].null {
			return 0, errors.New("null value in column violates not-null constraint")
		}
		var old map[string]zzColP22
		for _, r := range t.rows {
			if r.col[t.pk].str == row[t.pk].str {
				old = r.col
			}
		}
		switch {
		case old == nil:
			t.rows = append(t.rows, zzRowP22{row})
		case kind == 0:
			return 0, errors.New("duplicate key value violates unique constraint")
		case kind == 1:
			continue
		default:
			q.env = append(q.env[:env:env], zzEnvP22{"excluded", "", row}, zzEnvP22{t.name, al, old})
			q.i = set
			upd := q.sets()
			ok := true
			if q.is("where") {
				v := q.or()
				ok = !v.null && v.b
			}
			if ret < 0 && q.i != end || ret >= 0 && q.i != ret {
				zzSkipP22("insert")
			}
			q.env = q.env[:env]
			if !ok {
				continue
			}
			for k, v := range upd {
				old[k] = v
			}
			row = old
		}
		n++
		if ret >= 0 {
			q.i = ret + 1
			q.returning(row, t, al)
		}
	}
	q.i = end
	return n, nil
}

func (q *zzQueryP22) or() zzColP22 {
	a := q.and()
	for q.is("or") {
		b := q.and()
		switch {
		case !a.null && a.b || !b.null && b.b:
			a = zzColP22{b: true}
		case a.null || b.null:
			a = zzColP22{null: true}
		default:
			a = zzColP22{}
		}
	}
	return a
}

func (q *zzQueryP22) and() zzColP22 {
	a := q.cmp()
	for q.is("and") {
		b := q.cmp()
		switch {
		case !a.null && !a.b || !b.null && !b.b:
			a = zzColP22{}
		case a.null || b.null:
			a = zzColP22{null: true}
		default:
			a = zzColP22{b: true}
		}
	}
	return a
}

func (q *zzQueryP22) eq(a, b zzColP22) bool {
	if a.isn != b.isn {
		zzSkipP22("mixed comparison")
	}
	if a.isn {
		return a.num == b.num
	}
	return a.str == b.str
}

func (q *zzQueryP22) cmp() zzColP22 {
	if q.is("not") {
		a := q.cmp()
		a.b = !a.b
		return a
	}
	if q.is("exists") {
		q.want("(", "select")
		_, out := q.sel()
		q.want(")")
		return zzColP22{b: len(out) > 0}
	}
	a := q.sum()
	for {
		if q.is("is") {
			not := q.is("not")
			if q.is("distinct", "from") {
				b := q.sum()
				d := a.null != b.null || !a.null && !q.eq(a, b)
				a = zzColP22{b: d != not}
				continue
			}
			q.want("null")
			a = zzColP22{b: a.null != not}
			continue
		}
		if in, notin := q.is("in"), q.is("not", "in"); in || notin {
			q.want("(")
			var set []zzColP22
			if q.is("select") {
				_, out := q.sel()
				for _, r := range out {
					set = append(set, r[0])
				}
				q.want(")")
			} else {
				for !q.is(")") {
					set = append(set, q.sum())
					q.is(",")
				}
			}
			hit, null := false, a.null && len(set) > 0
			for _, x := range set {
				if x.null {
					null = true
				} else if !a.null && q.eq(a, x) {
					hit = true
				}
			}
			a = zzColP22{null: null && !hit, b: hit != notin}
			continue
		}
		op := q.toks[q.i]
		switch op {
		case "=", "<>", "!=", "<", "<=", ">", ">=":
		default:
			return a
		}
		q.i++
		b := q.sum()
		if a.null || b.null {
			a = zzColP22{null: true}
			continue
		}
		var r bool
		if a.isn && b.isn {
			x, y := a.num, b.num
			switch op {
			case "=":
				r = x == y
			case "<>", "!=":
				r = x != y
			case "<":
				r = x < y
			case "<=":
				r = x <= y
			case ">":
				r = x > y
			case ">=":
				r = x >= y
			}
		} else {
			switch op {
			case "=":
				r = q.eq(a, b)
			case "<>", "!=":
				r = !q.eq(a, b)
			default:
				zzSkipP22("order of strings")
			}
		}
		a = zzColP22{b: r}
	}
}

func (q *zzQueryP22) sum() zzColP22 {
	a := q.prod()
	for {
		neg := false
		if q.is("-") {
			neg = true
		} else if !q.is("+") {
			return a
		}
		b := q.prod()
		if a.null || b.null {
			a = zzColP22{null: true}
		} else if neg {
			a = zzColP22{num: a.num - b.num, isn: true}
		} else {
			a = zzColP22{num: a.num + b.num, isn: true}
		}
	}
}

func (q *zzQueryP22) prod() zzColP22 {
	a := q.prim()
	for q.is("*") {
		b := q.prim()
		a = zzColP22{null: a.null || b.null, num: a.num * b.num, isn: true}
	}
	return a
}

func (q *zzQueryP22) prim() zzColP22 {
	v := q.prim0()
	for q.is(":", ":") {
		switch q.next() {
		case "bigint", "int8", "text":
		default:
			zzSkipP22("cast")
		}
	}
	return v
}

func (q *zzQueryP22) prim0() zzColP22 {
	t := q.next()
	switch {
	case t == "(":
		if q.is("select") {
			_, out := q.sel()
			q.want(")")
			if len(out) == 0 {
				return zzColP22{null: true}
			}
			return out[0][0]
		}
		v := q.or()
		q.want(")")
		return v
	case t == "-":
		v := q.prim()
		v.num = -v.num
		return v
	case t == "null":
		return zzColP22{null: true}
	case t == "true" || t == "false":
		return zzColP22{b: t == "true"}
	case t == "case":
		q.want("when")
		var r zzColP22
		r.null = true
		done := false
		for {
			c := q.or()
			q.want("then")
			v := q.sum()
			if !done && !c.null && c.b {
				r, done = v, true
			}
			if !q.is("when") {
				break
			}
		}
		if q.is("else") {
			if v := q.sum(); !done {
				r = v
			}
		}
		q.want("end")
		return r
	case t == "coalesce" || t == "greatest" || t == "least":
		q.want("(")
		a := q.sum()
		for q.is(",") {
			b := q.sum()
			if a.null || t == "greatest" && !b.null && b.num > a.num || t == "least" && !b.null && b.num < a.num {
				a = b
			}
		}
		q.want(")")
		return a
	case t != "" && t[0] == '$':
		i := 0
		for k := 1; k < len(t); k++ {
			i = i*10 + int(t[k]-'0')
		}
		if i < 1 || i > len(q.args) {
			zzSkipP22("missing argument")
		}
		return q.args[i-1]
	case t != "" && t[0] >= '0' && t[0] <= '9':
		n := int64(0)
		for k := 0; k < len(t); k++ {
			n = n*10 + int64(t[k]-'0')
		}
		return zzColP22{num: n, isn: true}
	}
	for k := len(q.env) - 1; k >= 0; k-- {
		e := q.env[k]
		c := t
		for _, p := range []string{e.name, e.alias} {
			if n := len(p); n > 0 && len(t) > n && t[:n] == p && t[n] == '.' {
				c = t[n+1:]
			}
		}
		if e.name == "excluded" && c == t {
			continue
		}
		if v, ok := e.row[c]; ok {
			return v
		}
	}
	zzSkipP22("unknown column")
	return zzColP22{}
}

// ---- the driver side of database/sql

type zzConnectorP22 struct{ db *zzDBP22 }

func (c zzConnectorP22) Connect(context.Context) (driver.Conn, error) { return &zzConnP22{c.db}, nil }
func (c zzConnectorP22) Driver() driver.Driver                        { return zzDriverP22{} }

type zzDriverP22 struct{}

func (zzDriverP22) Open(string) (driver.Conn, error) { return nil, errors.New("use the connector") }

type zzConnP22 struct{ db *zzDBP22 }

func (c *zzConnP22) Prepare(q string) (driver.Stmt, error) { return &zzStmtP22{c.db, q}, nil }
func (c *zzConnP22) Close() error                          { return nil }
func (c *zzConnP22) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *zzConnP22) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.db.begin(); err != nil {
		return nil, err
	}
	return zzTxP22{c.db}, nil
}

func zzArgP22(v any) zzColP22 {
	switch v := v.(type) {
	case string:
		return zzColP22{str: v}
	case int64:
		return zzColP22{num: v, isn: true}
	case nil:
		return zzColP22{null: true}
	}
	zzSkipP22("argument type")
	return zzColP22{}
}

func zzArgsP22(args []driver.NamedValue) []zzColP22 {
	var cols []zzColP22
	for _, a := range args {
		cols = append(cols, zzArgP22(a.Value))
	}
	return cols
}

func (c *zzConnP22) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	_, n, err := c.db.exec(query, zzArgsP22(args))
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(n), nil
}

func (c *zzConnP22) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	q, _, err := c.db.exec(query, zzArgsP22(args))
	if err != nil {
		return nil, err
	}
	return &zzRowsP22{q: q}, nil
}

type zzStmtP22 struct {
	db *zzDBP22
	q  string
}

func (s *zzStmtP22) Close() error  { return nil }
func (s *zzStmtP22) NumInput() int { return -1 }
func (s *zzStmtP22) Exec(args []driver.Value) (driver.Result, error) {
	var cols []zzColP22
	for _, a := range args {
		cols = append(cols, zzArgP22(a))
	}
	_, n, err := s.db.exec(s.q, cols)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(n), nil
}
func (s *zzStmtP22) Query(args []driver.Value) (driver.Rows, error) {
	var cols []zzColP22
	for _, a := range args {
		cols = append(cols, zzArgP22(a))
	}
	q, _, err := s.db.exec(s.q, cols)
	if err != nil {
		return nil, err
	}
	return &zzRowsP22{q: q}, nil
}

type zzRowsP22 struct {
	q *zzQueryP22
	i int
}

func (r *zzRowsP22) Columns() []string {
	if r.q.cols == nil {
		return []string{"?"}
	}
	return r.q.cols
}
func (r *zzRowsP22) Close() error { return nil }
func (r *zzRowsP22) Next(dest []driver.Value) error {
	if r.i == len(r.q.out) {
		return io.EOF
	}
	for k, v := range r.q.out[r.i] {
		switch {
		case v.null:
			dest[k] = nil
		case v.isn:
			dest[k] = v.num
		case v.str != "":
			dest[k] = v.str
		default:
			dest[k] = v.b
		}
	}
	r.i++
	return nil
}

type zzTxP22 struct{ db *zzDBP22 }

func (t zzTxP22) Commit() error   { return t.db.commit() }
func (t zzTxP22) Rollback() error { t.db.rollback(); return nil }

func (d *zzDBP22) sql() *sql.DB { return sql.OpenDB(zzConnectorP22{d}) }
