package db

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Engine is a small SQL database in memory: the statements that generated code
// writes, with MySQL's meaning, and an error for everything else.
type Engine struct {
	Tables map[string]*Table
	Fail   map[string]bool // "exec", "query": the next such statement fails without effect
	Log    []string
	Hook   func(kind string) // called before every statement
	lastID int64
}

type Table struct {
	Cols []string
	Rows []Row
}

type Row map[string]driver.Value

func NewEngine() *Engine { return &Engine{Tables: map[string]*Table{}} }

func (e *Engine) Open() *sql.DB { return sql.OpenDB(connector{e}) }

type connector struct{ e *Engine }

func (c connector) Connect(context.Context) (driver.Conn, error) { return conn{c.e}, nil }
func (c connector) Driver() driver.Driver                        { return nil }

type conn struct{ e *Engine }

func (c conn) Prepare(q string) (driver.Stmt, error) { return stmt{c.e, q}, nil }
func (c conn) Close() error                          { return nil }
func (c conn) Begin() (driver.Tx, error)             { return nil, errors.New("no transactions") }

type stmt struct {
	e *Engine
	q string
}

func (s stmt) Close() error  { return nil }
func (s stmt) NumInput() int { return -1 }

func (s stmt) Exec(args []driver.Value) (driver.Result, error) {
	n, err := s.e.exec(s.q, args)
	return result{n, s.e.lastID}, err
}

func (s stmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.e.query(s.q, args)
}

type result struct{ n, id int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

type rows struct {
	cols []string
	vals [][]driver.Value
	i    int
}

func (r *rows) Columns() []string { return r.cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.vals) {
		return io.EOF
	}
	copy(dest, r.vals[r.i])
	r.i++
	return nil
}

func norm(v driver.Value) driver.Value {
	switch x := v.(type) {
	case bool:
		if x {
			return int64(1)
		}
		return int64(0)
	case []byte:
		return append([]byte(nil), x...)
	}
	return v
}

// Text is the canonical form of a value
func Text(v driver.Value) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case []byte:
		return string(x)
	case string:
		return x
	case time.Time:
		return strconv.FormatInt(x.UnixMilli(), 10)
	}
	return fmt.Sprint(v)
}

// ------------------------------------------------------------------ parsing
type parser struct {
	toks []string
	pos  int
	args []driver.Value
	used int
	err  error
}

func lex(q string) []string {
	var r []string
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '\'':
			j := i + 1
			for j < len(q) && q[j] != '\'' {
				j++
			}
			if j < len(q) {
				j++
			}
			r = append(r, q[i:j])
			i = j
		case c == '`':
			j := strings.IndexByte(q[i+1:], '`')
			if j < 0 {
				return append(r, "\x00")
			}
			r = append(r, q[i+1:i+1+j])
			i += j + 2
		case word(c):
			j := i
			for j < len(q) && (word(q[j]) || q[j] == '.') {
				j++
			}
			r = append(r, q[i:j])
			i = j
		case strings.HasPrefix(q[i:], "<=") || strings.HasPrefix(q[i:], ">=") || strings.HasPrefix(q[i:], "<>") || strings.HasPrefix(q[i:], "!="):
			r = append(r, q[i:i+2])
			i += 2
		default:
			r = append(r, q[i:i+1])
			i++
		}
	}
	return r
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *parser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *parser) is(s string) bool {
	if strings.EqualFold(p.peek(), s) {
		p.pos++
		return true
	}
	return false
}

func (p *parser) need(ss ...string) {
	for _, s := range ss {
		if !p.is(s) {
			p.bad("expected " + s)
		}
	}
}

func (p *parser) bad(m string) {
	if p.err == nil {
		p.err = fmt.Errorf("sql syntax: %s before %q in %q", m, p.peek(), strings.Join(p.toks, " "))
	}
	p.pos = len(p.toks)
}

var reserved = map[string]bool{"": true, "SELECT": true, "FROM": true, "WHERE": true, "AND": true, "OR": true, "SET": true,
	"VALUES": true, "GROUP": true, "ORDER": true, "BY": true, "LIMIT": true, "IN": true, "IS": true, "NOT": true, "NULL": true,
	"ASC": true, "DESC": true, "INSERT": true, "UPDATE": true, "DELETE": true, "INTO": true, "BETWEEN": true, "LIKE": true}

func (p *parser) name() string {
	n := p.peek()
	if reserved[strings.ToUpper(n)] || n == "" || !word(n[0]) || n[0] >= '0' && n[0] <= '9' {
		p.bad("expected a name")
		return ""
	}
	p.pos++
	return n
}

// an expression gives a value for a row, or for a group of rows
type expr func(g []Row) (driver.Value, error)

type agg struct {
	f     expr
	isAgg bool
	text  string
}

func (p *parser) primary() agg {
	t := p.peek()
	p.pos++
	konst := func(v driver.Value) agg { return agg{func([]Row) (driver.Value, error) { return v, nil }, false, t} }
	switch {
	case t == "?":
		if p.used >= len(p.args) {
			p.bad("too few parameters")
			return konst(nil)
		}
		p.used++
		return konst(norm(p.args[p.used-1]))
	case t == "(":
		a := p.expr()
		p.need(")")
		return a
	case t != "" && t[0] == '\'':
		return konst(strings.Trim(t, "'"))
	case t != "" && t[0] >= '0' && t[0] <= '9':
		if n, err := strconv.ParseInt(t, 10, 64); err == nil {
			return konst(n)
		}
		if n, err := strconv.ParseFloat(t, 64); err == nil {
			return konst(n)
		}
	case strings.EqualFold(t, "NULL"):
		return konst(nil)
	case t != "" && word(t[0]) && p.peek() == "(":
		p.pos++
		f := strings.ToUpper(t)
		if f == "NOW" {
			p.need(")")
			return konst(time.UnixMilli(1700000000000))
		}
		a := p.expr()
		p.need(")")
		switch f {
		case "COUNT", "MAX", "MIN", "SUM":
			return agg{func(g []Row) (driver.Value, error) {
				var best driver.Value
				n, sum := int64(0), int64(0)
				for _, r := range g {
					v, err := a.f([]Row{r})
					if err != nil {
						return nil, err
					}
					if v == nil {
						continue
					}
					n++
					if x, ok := v.(int64); ok {
						sum += x
					}
					if best == nil || f == "MAX" && compare(v, best) > 0 || f == "MIN" && compare(v, best) < 0 {
						best = v
					}
				}
				switch f {
				case "COUNT":
					return n, nil
				case "SUM":
					if n == 0 {
						return nil, nil
					}
					return sum, nil
				}
				return best, nil
			}, true, f + "(" + a.text + ")"}
		}
		p.bad("unknown function " + f)
	default:
		p.pos--
		n := p.name()
		return agg{func(g []Row) (driver.Value, error) {
			if len(g) == 0 {
				return nil, nil
			}
			v, ok := g[0][n]
			if !ok {
				return nil, fmt.Errorf("unknown column %q", n)
			}
			return v, nil
		}, false, n}
	}
	p.bad("expected an expression")
	return konst(nil)
}

func (p *parser) expr() agg {
	a := p.primary()
	for p.err == nil && (p.peek() == "+" || p.peek() == "-") {
		op := p.peek()
		p.pos++
		b := p.primary()
		l, r := a.f, b.f
		a = agg{func(g []Row) (driver.Value, error) {
			x, err := l(g)
			if err != nil {
				return nil, err
			}
			y, err := r(g)
			if err != nil || x == nil || y == nil {
				return nil, err
			}
			m, ok1 := x.(int64)
			n, ok2 := y.(int64)
			if !ok1 || !ok2 {
				return nil, fmt.Errorf("arithmetic on %T and %T", x, y)
			}
			if op == "-" {
				n = -n
			}
			return m + n, nil
		}, a.isAgg || b.isAgg, a.text + op + b.text}
	}
	return a
}

func number(v driver.Value) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case time.Time:
		return float64(x.UnixMilli()), true
	}
	return 0, false
}

func compare(a, b driver.Value) int {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		}
	}
	x, ok1 := number(a)
	y, ok2 := number(b)
	if ok1 && ok2 {
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	}
	return strings.Compare(Text(a), Text(b))
}

type cond func(r Row) (bool, error)

func (p *parser) condOr() cond {
	l := p.condAnd()
	for p.err == nil && p.is("OR") {
		a, b := l, p.condAnd()
		l = func(r Row) (bool, error) {
			x, err := a(r)
			if err != nil {
				return false, err
			}
			y, err := b(r)
			return x || y, err
		}
	}
	return l
}

func (p *parser) condAnd() cond {
	l := p.cond()
	for p.err == nil && p.is("AND") {
		a, b := l, p.cond()
		l = func(r Row) (bool, error) {
			x, err := a(r)
			if err != nil {
				return false, err
			}
			y, err := b(r)
			return x && y, err
		}
	}
	return l
}

func (p *parser) cond() cond {
	if p.peek() == "(" {
		p.pos++
		c := p.condOr()
		p.need(")")
		return c
	}
	a := p.expr()
	not := func(n bool, c cond) cond {
		return func(r Row) (bool, error) { x, err := c(r); return x != n, err }
	}
	if p.is("IS") {
		n := p.is("NOT")
		p.need("NULL")
		return not(n, func(r Row) (bool, error) { v, err := a.f([]Row{r}); return v == nil, err })
	}
	n := p.is("NOT")
	if p.is("IN") {
		p.need("(")
		var es []agg
		es = append(es, p.expr())
		for p.err == nil && p.is(",") {
			es = append(es, p.expr())
		}
		p.need(")")
		return not(n, func(r Row) (bool, error) {
			v, err := a.f([]Row{r})
			if err != nil || v == nil {
				return n, err
			}
			for _, e := range es {
				w, err := e.f([]Row{r})
				if err != nil {
					return false, err
				}
				if w != nil && compare(v, w) == 0 {
					return true, nil
				}
			}
			return false, nil
		})
	}
	if n {
		p.bad("expected IN")
	}
	op := p.peek()
	p.pos++
	switch op {
	case "=", "<", ">", "<=", ">=", "<>", "!=":
	default:
		p.pos--
		p.bad("expected a comparison")
	}
	b := p.expr()
	return func(r Row) (bool, error) {
		x, err := a.f([]Row{r})
		if err != nil {
			return false, err
		}
		y, err := b.f([]Row{r})
		if err != nil || x == nil || y == nil {
			return false, err
		}
		c := compare(x, y)
		switch op {
		case "=":
			return c == 0, nil
		case "<":
			return c < 0, nil
		case ">":
			return c > 0, nil
		case "<=":
			return c <= 0, nil
		case ">=":
			return c >= 0, nil
		}
		return c != 0, nil
	}
}

type order struct {
	e    agg
	desc bool
}

func (e *Engine) start(kind, q string, args []driver.Value) (*parser, error) {
	if e.Hook != nil {
		e.Hook(kind)
	}
	texts := make([]string, len(args))
	for i, a := range args {
		texts[i] = Text(norm(a))
	}
	e.Log = append(e.Log, q+" "+strings.Join(texts, "|"))
	if e.Fail[kind] {
		delete(e.Fail, kind)
		return nil, errors.New("injected failure")
	}
	return &parser{toks: lex(q), args: args}, nil
}

func (p *parser) end() error {
	if p.err == nil && p.pos < len(p.toks) {
		p.bad("end expected")
	}
	if p.err == nil && p.used != len(p.args) {
		p.err = fmt.Errorf("%d parameters for %d places in %q", len(p.args), p.used, strings.Join(p.toks, " "))
	}
	return p.err
}

func (e *Engine) table(p *parser) *Table {
	n := p.name()
	t := e.Tables[n]
	if t == nil {
		p.bad("no table " + n)
		return &Table{}
	}
	return t
}

func (t *Table) has(c string) bool {
	for _, x := range t.Cols {
		if x == c {
			return true
		}
	}
	return false
}

type assign struct {
	col string
	e   agg
}

func (p *parser) assigns(t *Table) []assign {
	var r []assign
	for p.err == nil {
		c := p.name()
		if p.err == nil && !t.has(c) {
			p.err = fmt.Errorf("unknown column %q", c)
		}
		p.need("=")
		r = append(r, assign{c, p.expr()})
		if !p.is(",") {
			break
		}
	}
	return r
}

func (t *Table) blank() Row {
	r := Row{}
	for _, c := range t.Cols {
		r[c] = nil
	}
	return r
}

func (p *parser) where() cond {
	if p.is("WHERE") {
		return p.condOr()
	}
	return func(Row) (bool, error) { return true, nil }
}

// max reads the limit of an update or a delete
func (p *parser) max() int64 {
	if !p.is("LIMIT") {
		return 1 << 62
	}
	v, _ := p.primary().f(nil)
	n, ok := v.(int64)
	if !ok || n < 0 {
		p.bad("bad limit")
	}
	return n
}

func (e *Engine) exec(q string, args []driver.Value) (int64, error) {
	p, err := e.start("exec", q, args)
	if err != nil {
		return 0, err
	}
	switch {
	case p.is("INSERT"):
		p.need("INTO")
		t := e.table(p)
		if p.is("SET") {
			as := p.assigns(t)
			if err := p.end(); err != nil {
				return 0, err
			}
			r := t.blank()
			for _, a := range as {
				if r[a.col], err = a.e.f([]Row{r}); err != nil {
					return 0, err
				}
			}
			t.Rows = append(t.Rows, r)
			return 1, nil
		}
		p.need("(")
		var cols []string
		for p.err == nil {
			c := p.name()
			if p.err == nil && !t.has(c) {
				p.err = fmt.Errorf("unknown column %q", c)
			}
			cols = append(cols, c)
			if !p.is(",") {
				break
			}
		}
		p.need(")", "VALUES")
		var all [][]agg
		for p.err == nil {
			p.need("(")
			var es []agg
			for p.err == nil {
				es = append(es, p.expr())
				if !p.is(",") {
					break
				}
			}
			p.need(")")
			if p.err == nil && len(es) != len(cols) {
				p.err = errors.New("column count does not match value count")
			}
			all = append(all, es)
			if !p.is(",") {
				break
			}
		}
		if err := p.end(); err != nil {
			return 0, err
		}
		for _, es := range all {
			r := t.blank()
			for i, c := range cols {
				if r[c], err = es[i].f([]Row{r}); err != nil {
					return 0, err
				}
			}
			t.Rows = append(t.Rows, r)
		}
		return int64(len(all)), nil
	case p.is("UPDATE"):
		t := e.table(p)
		p.need("SET")
		as := p.assigns(t)
		w := p.where()
		max := p.max()
		if err := p.end(); err != nil {
			return 0, err
		}
		var hit []Row
		for _, r := range append([]Row{t.blank()}, t.Rows...) { // the blank row: errors show on empty tables too
			if _, err := w(r); err != nil {
				return 0, err
			}
		}
		for _, r := range t.Rows {
			ok, _ := w(r)
			if ok && int64(len(hit)) < max {
				hit = append(hit, r)
			}
		}
		for _, r := range hit {
			for _, a := range as {
				if r[a.col], err = a.e.f([]Row{r}); err != nil {
					return 0, err
				}
			}
		}
		return int64(len(hit)), nil
	case p.is("DELETE"):
		p.need("FROM")
		t := e.table(p)
		w := p.where()
		max := p.max()
		if err := p.end(); err != nil {
			return 0, err
		}
		for _, r := range append([]Row{t.blank()}, t.Rows...) {
			if _, err := w(r); err != nil {
				return 0, err
			}
		}
		var keep []Row
		for _, r := range t.Rows {
			if ok, _ := w(r); !ok || max == 0 {
				keep = append(keep, r)
			} else {
				max--
			}
		}
		n := len(t.Rows) - len(keep)
		t.Rows = keep
		return int64(n), nil
	}
	p.bad("unknown statement")
	return 0, p.err
}

func (e *Engine) query(q string, args []driver.Value) (driver.Rows, error) {
	p, err := e.start("query", q, args)
	if err != nil {
		return nil, err
	}
	p.need("SELECT")
	var items []agg
	for p.err == nil {
		items = append(items, p.expr())
		if !p.is(",") {
			break
		}
	}
	p.need("FROM")
	t := e.table(p)
	w := p.where()
	var group []agg
	if p.is("GROUP") {
		p.need("BY")
		for p.err == nil {
			group = append(group, p.expr())
			if !p.is(",") {
				break
			}
		}
	}
	var orders []order
	if p.is("ORDER") {
		p.need("BY")
		for p.err == nil {
			o := order{e: p.expr()}
			if p.is("DESC") {
				o.desc = true
			} else {
				p.is("ASC")
			}
			orders = append(orders, o)
			if !p.is(",") {
				break
			}
		}
	}
	lo, n := int64(0), int64(-1)
	if p.is("LIMIT") {
		num := func() int64 {
			v, _ := p.primary().f(nil)
			x, ok := v.(int64)
			if !ok || x < 0 {
				p.bad("bad limit")
			}
			return x
		}
		n = num()
		if p.is(",") {
			lo, n = n, num()
		}
	}
	if err := p.end(); err != nil {
		return nil, err
	}
	var hit []Row
	for _, r := range append([]Row{t.blank()}, t.Rows...) { // the blank row: errors show on empty tables too
		ok, err := w(r)
		if err != nil {
			return nil, err
		}
		for _, o := range orders {
			if _, err := o.e.f([]Row{r}); err != nil {
				return nil, err
			}
		}
		if ok {
			hit = append(hit, r)
		}
	}
	for _, it := range items {
		if _, err := it.f([]Row{t.blank()}); err != nil {
			return nil, err
		}
	}
	hit = nil
	for _, r := range t.Rows {
		if ok, _ := w(r); ok {
			hit = append(hit, r)
		}
	}
	var groups [][]Row
	isAgg := false
	for _, it := range items {
		isAgg = isAgg || it.isAgg
	}
	switch {
	case group != nil:
		idx := map[string]int{}
		for _, r := range hit {
			k := ""
			for _, g := range group {
				v, err := g.f([]Row{r})
				if err != nil {
					return nil, err
				}
				k += Text(v) + "\x00"
			}
			if i, ok := idx[k]; ok {
				groups[i] = append(groups[i], r)
			} else {
				idx[k] = len(groups)
				groups = append(groups, []Row{r})
			}
		}
	case isAgg:
		groups = [][]Row{hit}
	default:
		for _, r := range hit {
			groups = append(groups, []Row{r})
		}
	}
	sort.SliceStable(groups, func(i, j int) bool {
		for _, o := range orders {
			x, _ := o.e.f(groups[i])
			y, _ := o.e.f(groups[j])
			c := 0
			switch {
			case x == nil && y != nil:
				c = -1
			case x != nil && y == nil:
				c = 1
			case x != nil:
				c = compare(x, y)
			}
			if c != 0 {
				return c < 0 != o.desc
			}
		}
		return false
	})
	if lo > int64(len(groups)) {
		lo = int64(len(groups))
	}
	groups = groups[lo:]
	if n >= 0 && n < int64(len(groups)) {
		groups = groups[:n]
	}
	res := &rows{}
	for _, it := range items {
		res.cols = append(res.cols, it.text)
	}
	for _, g := range groups {
		var vs []driver.Value
		for _, it := range items {
			v, err := it.f(g)
			if err != nil {
				return nil, err
			}
			vs = append(vs, v)
		}
		res.vals = append(res.vals, vs)
	}
	return res, nil
}
