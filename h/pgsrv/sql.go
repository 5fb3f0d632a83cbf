//go:build go1.22

// Package pgsrv is a PostgreSQL server reduced to what pgutil can see: the
// wire protocol with injected faults, and an evaluator for the queries it
// sends, over the system catalogs of an abstract database.
package pgsrv

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Type is the OID of a type.
type Type uint32

// The types that the evaluator knows.
const (
	TBool    Type = 16
	TChar    Type = 18
	TName    Type = 19
	TInt8    Type = 20
	TInt4    Type = 23
	TText    Type = 25
	TOID     Type = 26
	TTextArr Type = 1009
	TIntArr  Type = 1007
)

// Col is a column of a relation.
type Col struct {
	Name string
	T    Type
}

// Rel is a relation; its values are nil, bool, int64, string, []string and []int64.
type Rel struct {
	Cols []Col
	Rows [][]any
	Full bool // it has no other columns
}

// DB is what queries are evaluated on.
type DB interface {
	Rel(schema, name string) *Rel
	Func(name string, args []any) any
	FuncType(name string) (Type, bool)
	Regclass(name string) any
	Show(name string) (string, bool)
}

// SQLError is an error the server reports.
type SQLError struct {
	Code, Msg string
	// Unsupported means that the evaluator, not a server, can't handle the statement.
	Unsupported bool
}

func (e SQLError) Error() string { return e.Code + ": " + e.Msg }

func unsupported(f string, a ...any) { panic(SQLError{"0A000", fmt.Sprintf(f, a...), true}) }
func sqlerr(code, f string, a ...any) {
	panic(SQLError{code, fmt.Sprintf(f, a...), false})
}

// ---- lexer

type tok struct {
	k byte // i identifier, q quoted identifier, n number, s string, p parameter, o operator, 0 end
	s string
}

func lex(s string) (out []tok) {
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				sqlerr("42601", "unterminated comment")
			}
			i += j + 2
		case c == '\'' || ((c == 'E' || c == 'e') && i+1 < len(s) && s[i+1] == '\''):
			esc := c != '\''
			if esc {
				i++
			}
			var b strings.Builder
			i++
			for {
				if i >= len(s) {
					sqlerr("42601", "unterminated string")
				}
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				if esc && s[i] == '\\' && i+1 < len(s) {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
			out = append(out, tok{'s', b.String()})
		case c == '"':
			var b strings.Builder
			i++
			for {
				if i >= len(s) {
					sqlerr("42601", "unterminated identifier")
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						b.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(s[i])
				i++
			}
			out = append(out, tok{'q', b.String()})
		case c == '$' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, tok{'p', s[i+1 : j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, tok{'n', s[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] >= 0x80) {
				j++
			}
			out = append(out, tok{'i', strings.ToLower(s[i:j])})
			i = j
		default:
			ok := false
			for _, op := range []string{"!~~*", "!~~", "!~*", "~~*", "::", "<>", "!=", "<=", ">=", "||", "!~", "~*", "~~", "=", "<", ">", "~", "(", ")", ",", ".", ";", "+", "-", "*", "/", "[", "]", "%"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{'o', op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				sqlerr("42601", "syntax error at or near %q", s[i:])
			}
		}
	}
	return append(out, tok{})
}

// ---- compiled queries

type env struct {
	row    []any
	outer  *env
	params []any
	aggs   []any // the aggregates' values for the current group
}

// An aggregate is a call of an aggregate function.
type aggregate struct {
	name     string
	arg      *expr // nil for count(*)
	sep      *expr
	distinct bool
	filter   *expr
	keys     []aggKey
}

type aggKey struct {
	e    *expr
	desc bool
}

var aggregates = map[string]bool{"count": true, "min": true, "max": true, "sum": true, "bool_and": true, "bool_or": true, "every": true, "array_agg": true, "string_agg": true}

// value computes an aggregate over the rows of a group.
func (a *aggregate) value(e *env, rows [][]any) any {
	type val struct {
		x    any
		keys []any
	}
	var vals []val
	seen := map[string]bool{}
	var sep any
	for _, r := range rows {
		e.row = r
		if a.filter != nil && a.filter.f(e) != true {
			continue
		}
		if a.arg == nil {
			vals = append(vals, val{x: true})
			continue
		}
		v := val{x: a.arg.f(e)}
		if a.sep != nil {
			sep = a.sep.f(e)
		}
		if v.x == nil && a.name != "array_agg" {
			continue
		}
		if a.distinct {
			k := fmt.Sprintf("%#v", v.x)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		for _, k := range a.keys {
			v.keys = append(v.keys, k.e.f(e))
		}
		vals = append(vals, v)
	}
	sort.SliceStable(vals, func(i, j int) bool {
		for n, k := range a.keys {
			x, y := vals[i].keys[n], vals[j].keys[n]
			if x == nil || y == nil {
				if (x == nil) != (y == nil) {
					return (x == nil) == k.desc
				}
				continue
			}
			if c := order(x, y); c != 0 {
				return (c < 0) != k.desc
			}
		}
		return false
	})
	if a.distinct && len(a.keys) == 0 {
		sort.SliceStable(vals, func(i, j int) bool { return vals[i].x != nil && (vals[j].x == nil || order(vals[i].x, vals[j].x) < 0) })
	}
	if a.name == "count" {
		return int64(len(vals))
	}
	if len(vals) == 0 {
		return nil
	}
	switch a.name {
	case "min", "max":
		x := vals[0].x
		for _, v := range vals[1:] {
			if (order(v.x, x) < 0) == (a.name == "min") {
				x = v.x
			}
		}
		return x
	case "sum":
		var n int64
		for _, v := range vals {
			n += v.x.(int64)
		}
		return n
	case "bool_and", "every", "bool_or":
		for _, v := range vals {
			if v.x == (a.name == "bool_or") {
				return v.x
			}
		}
		return vals[0].x
	case "string_agg":
		out := str(vals[0].x)
		for _, v := range vals[1:] {
			if sep != nil {
				out += str(sep)
			}
			out += str(v.x)
		}
		return out
	}
	var l []any
	for _, v := range vals {
		l = append(l, v.x)
	}
	return array(l)
}

func (p *parser) aggregate(sc *scope, name string) *expr {
	if p.aggs == nil {
		sqlerr("42803", "aggregate functions are not allowed here")
	}
	list := p.aggs
	p.aggs = nil // they can't be nested
	a := &aggregate{name: name}
	switch {
	case name == "count" && p.op("*"):
	default:
		a.distinct = p.kw("distinct")
		if !a.distinct {
			p.kw("all")
		}
		a.arg = p.expr(sc)
		if name == "string_agg" {
			p.needOp(",")
			a.sep = p.expr(sc)
		}
		if p.kw("order") {
			p.needKw("by")
			for {
				k := aggKey{e: p.expr(sc)}
				if p.kw("desc") {
					k.desc = true
				} else {
					p.kw("asc")
				}
				a.keys = append(a.keys, k)
				if !p.op(",") {
					break
				}
			}
		}
	}
	p.needOp(")")
	if p.kw("filter") {
		p.needOp("(")
		p.needKw("where")
		a.filter = p.expr(sc)
		p.needOp(")")
	}
	p.aggs = list
	n := len(*list)
	*list = append(*list, a)
	t := TInt8
	switch name {
	case "min", "max":
		t = a.arg.t
		if t == TBool {
			sqlerr("42883", "function %s(boolean) does not exist", name)
		}
	case "sum":
		if a.arg.t != TInt4 && a.arg.t != TInt8 {
			unsupported("sum of type %d", a.arg.t)
		}
	case "bool_and", "bool_or", "every":
		if a.arg.t != TBool {
			sqlerr("42883", "function %s(%d) does not exist", name, a.arg.t)
		}
		t = TBool
	case "string_agg":
		t = TText
	case "array_agg":
		t = arrayOf(a.arg.t)
	}
	return &expr{t: t, f: func(e *env) any { return e.aggs[n] }}
}

type expr struct {
	f   func(*env) any
	t   Type
	srf bool // set returning: f yields []string or []int64
	prm int  // 1-based parameter number, for type inference
	lit bool
}

type scopeCol struct {
	alias, name string
	t           Type
	full        bool
}

type scope struct {
	cols  []scopeCol
	outer *scope
}

// Query is a compiled statement.
type Query struct {
	Cols       []Col
	ParamTypes []Type
	run        func(*env) [][]any
	tag        string
}

// Run evaluates the query.
func (q *Query) Run(params []any) (rows [][]any, err error) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(SQLError)
			if !ok {
				panic(x)
			}
			err = e
		}
	}()
	return q.run(&env{params: params}), nil
}

type parser struct {
	db    DB
	t     []tok
	i     int
	prm   map[int]Type
	ctes  []map[string]*Query
	inSet bool          // the query is part of a UNION
	aggs  *[]*aggregate // of the query that is read, nil where they are not allowed
}

// Compile parses a statement.
func Compile(db DB, sql string) (q *Query, err error) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(SQLError)
			if !ok {
				panic(x)
			}
			err = e
		}
	}()
	p := &parser{db: db, t: lex(sql), prm: map[int]Type{}}
	switch {
	case p.peekKw("select"), p.peekKw("with"):
		q = p.sel(nil)
	case p.kw("show"):
		name := p.t[p.i].s
		p.i++
		if name == "time" && p.kw("zone") {
			name = "timezone"
		}
		v, ok := db.Show(name)
		if !ok {
			sqlerr("42704", "unrecognized configuration parameter %q", name)
		}
		q = &Query{Cols: []Col{{name, TText}}, run: func(*env) [][]any { return [][]any{{v}} }, tag: "SHOW"}
	case p.peekKw("begin"), p.peekKw("start"), p.peekKw("commit"), p.peekKw("rollback"), p.peekKw("set"), p.peekKw("end"):
		tag := strings.ToUpper(p.t[p.i].s)
		for p.t[p.i].k != 0 {
			p.i++
		}
		return &Query{tag: tag, run: func(*env) [][]any { return nil }}, nil
	case p.t[p.i].k == 0:
		return &Query{tag: "", run: func(*env) [][]any { return nil }}, nil
	default:
		unsupported("statement %q", sql)
	}
	p.op(";")
	if p.t[p.i].k != 0 {
		sqlerr("42601", "syntax error at or near %q in %q", p.t[p.i].s, sql)
	}
	for n := 1; n <= len(p.prm); n++ {
		t, ok := p.prm[n]
		if !ok {
			sqlerr("42P02", "there is no parameter $%d", n)
		}
		if t == 0 {
			t = TText
		}
		q.ParamTypes = append(q.ParamTypes, t)
	}
	return q, nil
}

func (p *parser) peekKw(s string) bool { return p.t[p.i].k == 'i' && p.t[p.i].s == s }
func (p *parser) kw(s string) bool {
	if p.peekKw(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) peekOp(s string) bool { return p.t[p.i].k == 'o' && p.t[p.i].s == s }
func (p *parser) op(s string) bool {
	if p.peekOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) needOp(s string) {
	if !p.op(s) {
		sqlerr("42601", "syntax error at or near %q, expected %q", p.t[p.i].s, s)
	}
}
func (p *parser) needKw(s string) {
	if !p.kw(s) {
		sqlerr("42601", "syntax error at or near %q, expected %q", p.t[p.i].s, s)
	}
}

var reserved = map[string]bool{"select": true, "from": true, "where": true, "join": true, "left": true, "right": true, "full": true, "inner": true, "outer": true,
	"cross": true, "on": true, "using": true, "order": true, "group": true, "having": true, "limit": true, "union": true, "and": true, "or": true, "not": true, "as": true,
	"in": true, "is": true, "like": true, "between": true, "case": true, "when": true, "then": true, "else": true, "end": true, "desc": true, "asc": true, "offset": true,
	"distinct": true, "natural": true, "lateral": true, "with": true, "exists": true, "nulls": true, "except": true, "intersect": true, "collate": true, "for": true, "ilike": true}

func (p *parser) ident() (string, bool) {
	t := p.t[p.i]
	if t.k == 'q' || t.k == 'i' && !reserved[t.s] {
		p.i++
		return t.s, true
	}
	return "", false
}

func (p *parser) needIdent() string {
	s, ok := p.ident()
	if !ok {
		sqlerr("42601", "syntax error at or near %q, expected a name", p.t[p.i].s)
	}
	return s
}

type source struct {
	cols []Col
	rows func(*env) [][]any
	lat  bool   // rows depends on the sources before it
	kind string // "", "inner", "left", "cross"
	on   *expr
	from int
	full bool
}

func (p *parser) sel(outer *scope) *Query {
	if p.kw("with") {
		m := map[string]*Query{}
		p.ctes = append(p.ctes, m)
		defer func() { p.ctes = p.ctes[:len(p.ctes)-1] }()
		for {
			name := p.needIdent()
			p.needKw("as")
			p.needOp("(")
			m[name] = p.sel(outer)
			p.needOp(")")
			if !p.op(",") {
				break
			}
		}
	}
	p.needKw("select")
	outerAggs, outerSet := p.aggs, p.inSet
	defer func() { p.aggs, p.inSet = outerAggs, outerSet }()
	p.aggs = nil
	inSet := p.inSet
	p.inSet = false
	distinct := p.kw("distinct")
	start := p.i
	// the select list is compiled after FROM; skip it
	depth := 0
	for !(depth == 0 && (p.peekKw("from") || p.t[p.i].k == 0 || p.peekOp(")") || p.peekOp(";") || p.peekKw("where") || p.peekKw("order") || p.peekKw("limit") || p.peekKw("group") || p.peekKw("union") || p.peekKw("except"))) {
		if p.peekOp("(") {
			depth++
		}
		if p.peekOp(")") {
			depth--
		}
		p.i++
	}
	sc := &scope{outer: outer}
	var srcs []source
	add := func(kind string) {
		s, alias := p.tableRef(outer, sc)
		s.kind, s.from = kind, len(sc.cols)
		for _, c := range sc.cols {
			if c.alias == alias {
				sqlerr("42712", "table name %q specified more than once", alias)
			}
		}
		for _, c := range s.cols {
			sc.cols = append(sc.cols, scopeCol{alias, c.Name, c.T, s.full})
		}
		if kind == "inner" || kind == "left" {
			if p.kw("using") {
				p.needOp("(")
				var conds []*expr
				for {
					name := p.needIdent()
					l, r := -1, -1
					for i, c := range sc.cols {
						if c.name == name {
							if i < s.from {
								l = i
							} else {
								r = i
							}
						}
					}
					if l < 0 || r < 0 {
						sqlerr("42703", "column %q in USING does not exist", name)
					}
					conds = append(conds, &expr{t: TBool, f: func(e *env) any { return cmp("=", e.row[l], e.row[r]) }})
					if !p.op(",") {
						break
					}
				}
				p.needOp(")")
				s.on = &expr{t: TBool, f: func(e *env) any {
					for _, c := range conds {
						if c.f(e) != true {
							return false
						}
					}
					return true
				}}
			} else {
				p.needKw("on")
				s.on = p.expr(sc)
			}
		}
		srcs = append(srcs, s)
	}
	if p.kw("from") {
		add("cross")
		for {
			switch {
			case p.op(","):
				add("cross")
				continue
			case p.kw("cross"):
				p.needKw("join")
				add("cross")
				continue
			case p.kw("inner"):
				p.needKw("join")
				add("inner")
				continue
			case p.kw("left"):
				p.kw("outer")
				p.needKw("join")
				add("left")
				continue
			case p.kw("join"):
				add("inner")
				continue
			case p.peekKw("right"), p.peekKw("full"), p.peekKw("natural"):
				unsupported("%s join", p.t[p.i].s)
			}
			break
		}
	}
	after := p.i

	// the select list
	p.i = start
	var aggs []*aggregate
	p.aggs = &aggs
	type item struct {
		e    *expr
		name string
	}
	var items []item
	for {
		if p.op("*") {
			for i, c := range sc.cols {
				i := i
				items = append(items, item{&expr{t: c.t, f: func(e *env) any { return e.row[i] }}, c.name})
			}
		} else {
			j := p.i
			e := p.expr(sc)
			name := "?column?"
			if last := p.t[p.i-1]; last.k == 'i' || last.k == 'q' {
				name = last.s
			} else if p.t[j].k == 'i' {
				name = p.t[j].s
			}
			if p.kw("as") {
				name = p.t[p.i].s
				p.i++
			} else if s, ok := p.ident(); ok {
				name = s
			}
			items = append(items, item{e, name})
		}
		if !p.op(",") {
			break
		}
	}
	if after > p.i && !p.peekKw("from") {
		sqlerr("42601", "syntax error at or near %q", p.t[p.i].s)
	}
	if after > p.i {
		p.i = after
	}

	var where *expr
	if p.kw("where") {
		p.aggs = nil
		where = p.expr(sc)
		p.aggs = &aggs
		if where.t != TBool {
			sqlerr("42804", "argument of WHERE must be type boolean")
		}
	}
	var groups []*expr
	var having *expr
	grouped := false
	if p.kw("group") {
		p.needKw("by")
		grouped = true
		for {
			t, n := p.t[p.i], p.t[p.i+1]
			end := n.k == 0 || n.k == 'o' && (n.s == "," || n.s == ";" || n.s == ")") || n.k == 'i' && (n.s == "order" || n.s == "having" || n.s == "limit")
			if i, err := strconv.Atoi(t.s); end && t.k == 'n' && err == nil {
				if i < 1 || i > len(items) {
					sqlerr("42P10", "GROUP BY position %d is not in select list", i)
				}
				groups = append(groups, items[i-1].e)
				p.i++
			} else {
				p.aggs = nil
				groups = append(groups, p.expr(sc))
				p.aggs = &aggs
			}
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("having") {
		grouped = true
		having = p.expr(sc)
	}
	type setOp struct {
		all, except bool
		q           *Query
	}
	var sets []setOp
	for !inSet && (p.peekKw("union") || p.peekKw("except")) {
		o := setOp{except: p.peekKw("except")}
		p.i++
		o.all = p.kw("all")
		p.kw("distinct")
		paren := p.op("(")
		p.inSet, p.aggs = !paren, nil
		o.q = p.sel(outer)
		p.inSet, p.aggs = false, &aggs
		if paren {
			p.needOp(")")
		}
		if len(o.q.Cols) != len(items) {
			sqlerr("42601", "each query must have the same number of columns")
		}
		sets = append(sets, o)
	}
	if p.peekKw("intersect") || p.peekKw("for") {
		unsupported("%s", p.t[p.i].s)
	}
	type key struct {
		item  int
		e     *expr
		desc  bool
		nulls int
	}
	var keys []key
	if !inSet && p.kw("order") {
		p.needKw("by")
		for {
			k := key{item: -1}
			t, n := p.t[p.i], p.t[p.i+1]
			end := n.k == 0 || n.k == 'o' && (n.s == "," || n.s == ";" || n.s == ")") || n.k == 'i' && (n.s == "desc" || n.s == "asc" || n.s == "nulls" || n.s == "limit")
			if end && t.k == 'n' {
				i, _ := strconv.Atoi(t.s)
				if i < 1 || i > len(items) {
					sqlerr("42P10", "ORDER BY position %d is not in select list", i)
				}
				k.item = i - 1
				p.i++
			} else if end && (t.k == 'i' || t.k == 'q') {
				for i, it := range items {
					if it.name == t.s {
						k.item = i
					}
				}
				if k.item >= 0 {
					p.i++
				}
			}
			if k.item < 0 && len(sets) > 0 {
				sqlerr("0A000", "invalid UNION/INTERSECT/EXCEPT ORDER BY clause")
			}
			if k.item < 0 {
				k.e = p.expr(sc)
			}
			if p.kw("collate") {
				if s := p.needIdent(); s != "C" && s != "POSIX" {
					unsupported("collation %s", s)
				}
			}
			if p.kw("desc") {
				k.desc = true
			} else {
				p.kw("asc")
			}
			if p.kw("nulls") {
				if p.kw("first") {
					k.nulls = 1
				} else {
					p.needKw("last")
					k.nulls = 2
				}
			}
			keys = append(keys, k)
			if !p.op(",") {
				break
			}
		}
	}
	var limit, offset *expr
	for !inSet {
		if p.kw("limit") {
			limit = p.expr(sc)
			continue
		}
		if p.kw("offset") {
			offset = p.expr(sc)
			continue
		}
		break
	}

	p.aggs = nil
	grouped = grouped || len(aggs) > 0
	q := &Query{tag: "SELECT"}
	srf := -1
	for i, it := range items {
		q.Cols = append(q.Cols, Col{it.name, it.e.t})
		if it.e.srf {
			if srf >= 0 {
				unsupported("two set-returning functions")
			}
			srf = i
		}
	}
	width := len(sc.cols)
	q.run = func(parent *env) [][]any {
		row := make([]any, width)
		e := &env{row: row, outer: parent, params: parent.params}
		type outRow struct {
			vals, keys []any
		}
		var out []outRow
		var members [][]any
		produce := func() {
			vals := make([]any, len(items))
			for i, it := range items {
				vals[i] = it.e.f(e)
			}
			expand := func(vals []any) {
				r := outRow{vals: vals}
				for _, k := range keys {
					if k.item >= 0 {
						r.keys = append(r.keys, vals[k.item])
					} else {
						r.keys = append(r.keys, k.e.f(e))
					}
				}
				out = append(out, r)
			}
			if srf < 0 {
				expand(vals)
				return
			}
			arr, _ := vals[srf].([]string)
			for _, x := range arr {
				v := append([]any{}, vals...)
				v[srf] = x
				expand(v)
			}
		}
		emit := func() {
			if where != nil && where.f(e) != true {
				return
			}
			if grouped {
				members = append(members, append([]any{}, row...))
				return
			}
			produce()
		}
		var loop func(n int)
		loop = func(n int) {
			if n == len(srcs) {
				emit()
				return
			}
			s := srcs[n]
			any1 := false
			from := parent
			if s.lat {
				from = e
			}
			for _, r := range s.rows(from) {
				copy(row[s.from:], r)
				if s.on != nil && s.on.f(e) != true {
					continue
				}
				any1 = true
				loop(n + 1)
			}
			if !any1 && s.kind == "left" {
				for i := range s.cols {
					row[s.from+i] = nil
				}
				loop(n + 1)
			}
		}
		loop(0)
		if grouped {
			var names []string
			group := map[string][][]any{}
			if len(groups) == 0 {
				names = []string{""}
			}
			for _, m := range members {
				e.row = m
				k := ""
				for _, g := range groups {
					k += fmt.Sprintf("%#v,", g.f(e))
				}
				if len(groups) > 0 && group[k] == nil {
					names = append(names, k)
				}
				group[k] = append(group[k], m)
			}
			for _, k := range names {
				ms := group[k]
				e.aggs = nil
				for _, a := range aggs {
					e.aggs = append(e.aggs, a.value(e, ms))
				}
				e.row = make([]any, width)
				if len(ms) > 0 {
					e.row = ms[0]
				}
				if having == nil || having.f(e) == true {
					produce()
				}
			}
		}
		for _, o := range sets {
			id := func(vals []any) string { return fmt.Sprintf("%#v", vals) }
			if o.except {
				gone := map[string]int{}
				for _, r := range o.q.run(parent) {
					gone[id(r)]++
				}
				kept := out[:0]
				for _, r := range out {
					if gone[id(r.vals)] == 0 {
						kept = append(kept, r)
					} else if o.all {
						gone[id(r.vals)]--
					}
				}
				out = kept
			} else {
				for _, vals := range o.q.run(parent) {
					r := outRow{vals: vals}
					for _, k := range keys {
						r.keys = append(r.keys, vals[k.item])
					}
					out = append(out, r)
				}
			}
			if !o.all {
				seen := map[string]bool{}
				kept := out[:0]
				for _, r := range out {
					if !seen[id(r.vals)] {
						kept = append(kept, r)
					}
					seen[id(r.vals)] = true
				}
				out = kept
			}
		}
		sort.SliceStable(out, func(i, j int) bool {
			for k, key := range keys {
				a, b := out[i].keys[k], out[j].keys[k]
				if a == nil && b == nil {
					continue
				}
				if a == nil || b == nil {
					first := key.desc
					if key.nulls == 1 {
						first = true
					} else if key.nulls == 2 {
						first = false
					}
					return (a == nil) == first
				}
				c := order(a, b)
				if c == 0 {
					continue
				}
				return (c < 0) != key.desc
			}
			return false
		})
		res := make([][]any, 0, len(out))
		seen := map[string]bool{}
		for _, r := range out {
			if distinct {
				k := fmt.Sprintf("%#v", r.vals)
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			res = append(res, r.vals)
		}
		if offset != nil {
			n := int(offset.f(e).(int64))
			if n > len(res) {
				n = len(res)
			}
			res = res[n:]
		}
		if limit != nil {
			if n, ok := limit.f(e).(int64); ok && int(n) < len(res) {
				res = res[:n]
			}
		}
		return res
	}
	return q
}

func (p *parser) tableRef(outer, sc *scope) (s source, alias string) {
	if p.kw("lateral") && p.peekOp("(") {
		s, alias = p.tableRef(sc, sc)
		s.lat = true
		return s, alias
	}
	if p.op("(") {
		q := p.sel(outer)
		p.needOp(")")
		p.kw("as")
		alias = p.needIdent()
		return source{cols: q.Cols, rows: q.run}, alias
	}
	name := p.needIdent()
	schema := ""
	if p.op(".") {
		schema, name = name, p.needIdent()
	}
	if p.peekOp("(") {
		if name != "unnest" {
			unsupported("function %s in FROM", name)
		}
		p.needOp("(")
		arr := p.expr(sc)
		p.needOp(")")
		t := TText
		switch arr.t {
		case TIntArr:
			t = TInt4
		case 1003:
			t = TName
		}
		col := name
		if p.kw("as") {
			alias = p.needIdent()
			col = alias
		} else if a, ok := p.ident(); ok {
			alias, col = a, a
		} else {
			alias = name
		}
		if p.op("(") {
			col = p.needIdent()
			p.needOp(")")
		}
		return source{lat: true, cols: []Col{{col, t}}, rows: func(e *env) (out [][]any) {
			for _, x := range elements(arr.f(e)) {
				out = append(out, []any{x})
			}
			return
		}}, alias
	}
	if schema == "" {
		for i := len(p.ctes) - 1; i >= 0; i-- {
			if q := p.ctes[i][name]; q != nil {
				alias = name
				if p.kw("as") {
					alias = p.needIdent()
				} else if a, ok := p.ident(); ok {
					alias = a
				}
				return source{cols: q.Cols, rows: q.run}, alias
			}
		}
	}
	r := p.db.Rel(schema, name)
	if r == nil {
		if name == "pg_sequence" { // of a server that has none
			sqlerr("42P01", "relation %q does not exist", name)
		}
		if schema == "" || schema == "pg_catalog" || schema == "information_schema" {
			unsupported("relation %s.%s", schema, name)
		}
		sqlerr("42P01", "relation %q.%q does not exist", schema, name)
	}
	alias = name
	if p.kw("as") {
		alias = p.needIdent()
	} else if a, ok := p.ident(); ok {
		alias = a
	}
	return source{cols: r.Cols, rows: func(*env) [][]any { return r.Rows }, full: r.Full}, alias
}

// ---- expressions

func (p *parser) expr(sc *scope) *expr { return p.or(sc) }

func (p *parser) or(sc *scope) *expr {
	l := p.and(sc)
	for p.kw("or") {
		a, b := l, p.and(sc)
		l = &expr{t: TBool, f: func(e *env) any {
			x, y := a.f(e), b.f(e)
			if x == true || y == true {
				return true
			}
			if x == nil || y == nil {
				return nil
			}
			return false
		}}
	}
	return l
}

func (p *parser) and(sc *scope) *expr {
	l := p.not(sc)
	for p.kw("and") {
		a, b := l, p.not(sc)
		l = &expr{t: TBool, f: func(e *env) any {
			x := a.f(e)
			if x == false {
				return false
			}
			y := b.f(e)
			if y == false {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}}
	}
	return l
}

func (p *parser) not(sc *scope) *expr {
	if p.kw("not") {
		a := p.not(sc)
		return &expr{t: TBool, f: func(e *env) any { return neg(a.f(e)) }}
	}
	return p.is(sc)
}

func neg(x any) any {
	if x == nil {
		return nil
	}
	return !x.(bool)
}

func (p *parser) is(sc *scope) *expr {
	l := p.compare(sc)
	for p.kw("is") {
		a, n := l, p.kw("not")
		var f func(any) bool
		switch {
		case p.kw("null"):
			f = func(x any) bool { return x == nil }
		case p.kw("true"):
			f = func(x any) bool { return x == true }
		case p.kw("false"):
			f = func(x any) bool { return x == false }
		case p.kw("distinct"):
			p.needKw("from")
			b := p.compare(sc)
			l = &expr{t: TBool, f: func(e *env) any {
				x, y := a.f(e), b.f(e)
				d := (x == nil) != (y == nil) || x != nil && cmp("<>", x, y) == true
				return d != n
			}}
			continue
		default:
			unsupported("IS %s", p.t[p.i].s)
		}
		l = &expr{t: TBool, f: func(e *env) any { return f(a.f(e)) != n }}
	}
	return l
}

func (p *parser) infer(a, b *expr) {
	if a.prm > 0 && p.prm[a.prm] == 0 && !b.lit && b.prm == 0 {
		p.prm[a.prm] = b.t
	}
	if b.prm > 0 && p.prm[b.prm] == 0 && !a.lit && a.prm == 0 {
		p.prm[b.prm] = a.t
	}
}

func (p *parser) compare(sc *scope) *expr {
	l := p.other(sc)
	for {
		t := p.t[p.i]
		if t.k == 'o' && (t.s == "=" || t.s == "<>" || t.s == "!=" || t.s == "<" || t.s == ">" || t.s == "<=" || t.s == ">=") {
			p.i++
			a := l
			if all := p.peekKw("all"); (all || p.peekKw("any") || p.peekKw("some")) && p.t[p.i+1].s == "(" {
				p.i += 2
				var list func(e *env) []any
				if p.peekKw("select") || p.peekKw("with") {
					q := p.sel(sc)
					list = func(e *env) (out []any) {
						for _, r := range q.run(e) {
							out = append(out, r[0])
						}
						return
					}
				} else {
					arr := p.expr(sc)
					list = func(e *env) []any { return elements(arr.f(e)) }
				}
				p.needOp(")")
				l = &expr{t: TBool, f: func(e *env) any {
					x := a.f(e)
					ys := list(e)
					null := false
					for _, y := range ys {
						switch cmp(t.s, x, y) {
						case nil:
							null = true
						case !all:
							return !all
						}
					}
					if null {
						return nil
					}
					return all
				}}
				continue
			}
			b := p.other(sc)
			p.infer(a, b)
			l = &expr{t: TBool, f: func(e *env) any { return cmp(t.s, a.f(e), b.f(e)) }}
			continue
		}
		save := p.i
		n := p.kw("not")
		a := l
		switch {
		case p.kw("in"):
			p.needOp("(")
			if p.peekKw("select") {
				q := p.sel(sc)
				p.needOp(")")
				l = &expr{t: TBool, f: func(e *env) any {
					x := a.f(e)
					if x == nil {
						return nil
					}
					found := false
					for _, r := range q.run(e) {
						if cmp("=", x, r[0]) == true {
							found = true
						}
					}
					return found != n
				}}
				continue
			}
			var list []*expr
			for {
				b := p.expr(sc)
				p.infer(a, b)
				list = append(list, b)
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
			l = &expr{t: TBool, f: func(e *env) any {
				x := a.f(e)
				if x == nil {
					return nil
				}
				null := false
				for _, b := range list {
					y := b.f(e)
					if y == nil {
						null = true
					} else if cmp("=", x, y) == true {
						return !n
					}
				}
				if null {
					return nil
				}
				return n
			}}
			continue
		case p.peekKw("like"), p.peekKw("ilike"):
			ci := p.t[p.i].s == "ilike"
			p.i++
			b := p.other(sc)
			l = &expr{t: TBool, f: func(e *env) any {
				x, y := a.f(e), b.f(e)
				if x == nil || y == nil {
					return nil
				}
				return like(x.(string), y.(string), ci) != n
			}}
			continue
		case p.kw("between"):
			lo := p.other(sc)
			p.needKw("and")
			hi := p.other(sc)
			l = &expr{t: TBool, f: func(e *env) any {
				x := a.f(e)
				r1, r2 := cmp(">=", x, lo.f(e)), cmp("<=", x, hi.f(e))
				if r1 == nil || r2 == nil {
					return nil
				}
				return (r1 == true && r2 == true) != n
			}}
			continue
		}
		p.i = save
		return l
	}
}

func like(s, pat string, ci bool) bool {
	var b strings.Builder
	b.WriteString("(?s)^")
	if ci {
		b.WriteString("(?i)")
	}
	esc := false
	for _, r := range pat {
		switch {
		case esc:
			b.WriteString(regexp.QuoteMeta(string(r)))
			esc = false
		case r == '\\':
			esc = true
		case r == '%':
			b.WriteString(".*")
		case r == '_':
			b.WriteString(".")
		default:
			b.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
	b.WriteString("$")
	return regexp.MustCompile(b.String()).MatchString(s)
}

// other handles ~ and ||, and + and -.
func (p *parser) other(sc *scope) *expr {
	l := p.additive(sc)
	for {
		t := p.t[p.i]
		if t.k != 'o' {
			return l
		}
		a := l
		switch t.s {
		case "~", "!~", "~*", "!~*":
			p.i++
			b := p.additive(sc)
			p.infer(a, b)
			cache := map[string]*regexp.Regexp{}
			l = &expr{t: TBool, f: func(e *env) any {
				x, y := a.f(e), b.f(e)
				if x == nil || y == nil {
					return nil
				}
				pat := y.(string)
				re := cache[pat]
				if re == nil {
					src := pat
					if strings.HasSuffix(t.s, "*") {
						src = "(?i)" + pat
					}
					var err error
					re, err = regexp.Compile(src)
					if err != nil {
						sqlerr("2201B", "invalid regular expression: %v", err)
					}
					cache[pat] = re
				}
				return re.MatchString(str(x)) != (t.s[0] == '!')
			}}
		case "~~", "!~~", "~~*", "!~~*":
			p.i++
			b := p.additive(sc)
			l = &expr{t: TBool, f: func(e *env) any {
				x, y := a.f(e), b.f(e)
				if x == nil || y == nil {
					return nil
				}
				return like(str(x), str(y), strings.HasSuffix(t.s, "*")) != (t.s[0] == '!')
			}}
		case "||":
			p.i++
			b := p.additive(sc)
			l = &expr{t: TText, f: func(e *env) any {
				x, y := a.f(e), b.f(e)
				if x == nil || y == nil {
					return nil
				}
				return str(x) + str(y)
			}}
		default:
			return l
		}
	}
}

// elements is what is in an array.
func elements(x any) (out []any) {
	switch v := x.(type) {
	case []string:
		for _, y := range v {
			out = append(out, y)
		}
	case []int64:
		for _, y := range v {
			out = append(out, y)
		}
	}
	return
}

// array makes an array.
func array(l []any) any {
	if len(l) > 0 {
		if _, ok := l[0].(int64); ok {
			var out []int64
			for _, x := range l {
				n, ok := x.(int64)
				if !ok {
					unsupported("null in an array")
				}
				out = append(out, n)
			}
			return out
		}
	}
	out := []string{}
	for _, x := range l {
		if x == nil {
			unsupported("null in an array")
		}
		out = append(out, str(x))
	}
	return out
}

func arrayOf(t Type) Type {
	switch t {
	case TInt4:
		return TIntArr
	case TName:
		return 1003
	case TText:
		return TTextArr
	}
	unsupported("array of type %d", t)
	return 0
}

func str(x any) string {
	switch v := x.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		if v {
			return "true"
		}
		return "false"
	}
	unsupported("%T as text", x)
	return ""
}

func (p *parser) additive(sc *scope) *expr {
	l := p.unary(sc)
	for p.peekOp("+") || p.peekOp("-") || p.peekOp("*") {
		op := p.t[p.i].s
		p.i++
		a, b := l, p.unary(sc)
		p.infer(a, b)
		l = &expr{t: a.t, f: func(e *env) any {
			x, ok1 := a.f(e).(int64)
			y, ok2 := b.f(e).(int64)
			if !ok1 || !ok2 {
				return nil
			}
			switch op {
			case "+":
				return x + y
			case "-":
				return x - y
			}
			return x * y
		}}
	}
	return l
}

func (p *parser) unary(sc *scope) *expr {
	if p.op("-") {
		a := p.unary(sc)
		return &expr{t: a.t, f: func(e *env) any {
			if x, ok := a.f(e).(int64); ok {
				return -x
			}
			return nil
		}}
	}
	p.op("+")
	l := p.primary(sc)
	for p.op("::") {
		l = p.cast(l, p.typeName())
	}
	return l
}

func (p *parser) typeName() string {
	name := p.needIdent()
	if p.op(".") {
		name = p.needIdent()
	}
	if p.op("[") {
		p.needOp("]")
		name += "[]"
	}
	return name
}

func (p *parser) cast(a *expr, name string) *expr {
	switch name {
	case "regclass":
		return &expr{t: TOID, f: func(e *env) any {
			if s, ok := a.f(e).(string); ok {
				return p.db.Regclass(s)
			}
			return a.f(e)
		}}
	case "text", "varchar":
		return &expr{t: TText, f: conv(a, func(x any) any { return str(x) })}
	case "name":
		return &expr{t: TName, f: conv(a, func(x any) any { return str(x) })}
	case "char":
		return &expr{t: TChar, f: conv(a, func(x any) any {
			s := str(x)
			if len(s) > 1 {
				s = s[:1]
			}
			return s
		})}
	case "oid", "int4", "int", "integer", "int8", "bigint", "regproc":
		t := TInt8
		switch name {
		case "oid", "regproc":
			t = TOID
		case "int4", "int", "integer":
			t = TInt4
		}
		return &expr{t: t, f: conv(a, func(x any) any {
			if s, ok := x.(string); ok {
				n, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					sqlerr("22P02", "invalid input syntax for integer: %q", s)
				}
				return n
			}
			return x
		})}
	case "bool", "boolean":
		return &expr{t: TBool, f: conv(a, func(x any) any {
			if s, ok := x.(string); ok {
				return s == "t" || s == "true" || s == "on" || s == "1" || s == "yes"
			}
			return x
		})}
	case "text[]", "name[]":
		return &expr{t: TTextArr, f: a.f}
	}
	unsupported("type %q", name)
	return nil
}

func conv(a *expr, f func(any) any) func(*env) any {
	return func(e *env) any {
		x := a.f(e)
		if x == nil {
			return nil
		}
		return f(x)
	}
}

func constant(v any, t Type) *expr { return &expr{t: t, lit: true, f: func(*env) any { return v }} }

func (p *parser) primary(sc *scope) *expr {
	t := p.t[p.i]
	switch t.k {
	case 's':
		p.i++
		return constant(t.s, TText)
	case 'n':
		p.i++
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return constant(n, TInt4)
	case 'p':
		p.i++
		n, _ := strconv.Atoi(t.s)
		if _, ok := p.prm[n]; !ok {
			p.prm[n] = 0
		}
		return &expr{t: TText, prm: n, f: func(e *env) any {
			if n > len(e.params) {
				sqlerr("08P01", "parameter $%d is missing", n)
			}
			return e.params[n-1]
		}}
	case 'o':
		if p.op("(") {
			if p.peekKw("select") || p.peekKw("with") {
				q := p.sel(sc)
				p.needOp(")")
				if len(q.Cols) != 1 {
					sqlerr("42601", "subquery must return only one column")
				}
				return &expr{t: q.Cols[0].T, f: func(e *env) any {
					rows := q.run(e)
					if len(rows) == 0 {
						return nil
					}
					if len(rows) > 1 {
						sqlerr("21000", "more than one row returned by a subquery used as an expression")
					}
					return rows[0][0]
				}}
			}
			e := p.expr(sc)
			p.needOp(")")
			return e
		}
	case 'i':
		switch t.s {
		case "null":
			p.i++
			return constant(nil, TText)
		case "true", "false":
			p.i++
			return constant(t.s == "true", TBool)
		case "exists":
			p.i++
			p.needOp("(")
			q := p.sel(sc)
			p.needOp(")")
			return &expr{t: TBool, f: func(e *env) any { return len(q.run(e)) > 0 }}
		case "case":
			return p.caseExpr(sc)
		case "cast":
			p.i++
			p.needOp("(")
			a := p.expr(sc)
			p.needKw("as")
			e := p.cast(a, p.typeName())
			p.needOp(")")
			return e
		case "array":
			p.i++
			if p.op("(") {
				q := p.sel(sc)
				p.needOp(")")
				return &expr{t: arrayOf(q.Cols[0].T), f: func(e *env) any {
					var l []any
					for _, r := range q.run(e) {
						l = append(l, r[0])
					}
					return array(l)
				}}
			}
			p.needOp("[")
			var list []*expr
			at := TText
			for !p.op("]") {
				list = append(list, p.expr(sc))
				at = list[0].t
				if !p.op(",") {
					p.needOp("]")
					break
				}
			}
			return &expr{t: arrayOf(at), f: func(e *env) any {
				var l []any
				for _, x := range list {
					l = append(l, x.f(e))
				}
				return array(l)
			}}
		}
	}
	name, ok := p.ident()
	if !ok {
		sqlerr("42601", "syntax error at or near %q", t.s)
	}
	parts := []string{name}
	for p.op(".") {
		parts = append(parts, p.needIdent())
	}
	if p.op("(") {
		return p.call(sc, parts)
	}
	if len(parts) == 3 {
		parts = parts[1:]
	}
	depth := 0
	for s := sc; s != nil; s = s.outer {
		found := -1
		for i, c := range s.cols {
			if c.name == parts[len(parts)-1] && (len(parts) == 1 || c.alias == parts[0]) {
				if found >= 0 {
					sqlerr("42702", "column reference %q is ambiguous", parts[len(parts)-1])
				}
				found = i
			}
		}
		if found >= 0 {
			d := depth
			return &expr{t: s.cols[found].t, f: func(e *env) any {
				for k := 0; k < d; k++ {
					e = e.outer
				}
				return e.row[found]
			}}
		}
		depth++
	}
	full := true
	for s := sc; s != nil; s = s.outer {
		for _, c := range s.cols {
			full = full && c.full
		}
	}
	if full {
		sqlerr("42703", "column %q does not exist", strings.Join(parts, "."))
	}
	unsupported("column %s", strings.Join(parts, "."))
	return nil
}

func (p *parser) caseExpr(sc *scope) *expr {
	p.needKw("case")
	var subj *expr
	if !p.peekKw("when") {
		subj = p.expr(sc)
	}
	type arm struct{ c, v *expr }
	var arms []arm
	var els *expr
	var t Type
	for p.kw("when") {
		c := p.expr(sc)
		p.needKw("then")
		v := p.expr(sc)
		if t == 0 || t == TText && !v.lit {
			t = v.t
		}
		arms = append(arms, arm{c, v})
	}
	if p.kw("else") {
		els = p.expr(sc)
	}
	p.needKw("end")
	if t == TName && els != nil && els.t == TText {
		t = TText
	}
	return &expr{t: t, f: func(e *env) any {
		for _, a := range arms {
			c := a.c.f(e)
			if subj != nil {
				c = cmp("=", subj.f(e), c)
			}
			if c == true {
				return a.v.f(e)
			}
		}
		if els != nil {
			return els.f(e)
		}
		return nil
	}}
}

func (p *parser) call(sc *scope, parts []string) *expr {
	name := parts[len(parts)-1]
	if len(parts) == 2 && parts[0] != "pg_catalog" || len(parts) > 2 {
		unsupported("function %v", parts)
	}
	if aggregates[name] {
		return p.aggregate(sc, name)
	}
	var args []*expr
	if !p.op(")") {
		for {
			args = append(args, p.expr(sc))
			if !p.op(",") {
				break
			}
		}
		p.needOp(")")
	}
	switch name {
	case "coalesce":
		t := args[0].t
		return &expr{t: t, f: func(e *env) any {
			for _, a := range args {
				if x := a.f(e); x != nil {
					return x
				}
			}
			return nil
		}}
	case "unnest":
		return &expr{t: TText, srf: true, f: args[0].f}
	case "nullif":
		return &expr{t: args[0].t, f: func(e *env) any {
			x, y := args[0].f(e), args[1].f(e)
			if cmp("=", x, y) == true {
				return nil
			}
			return x
		}}
	}
	t, ok := p.db.FuncType(name)
	if !ok {
		unsupported("function %s", name)
	}
	return &expr{t: t, f: func(e *env) any {
		vals := make([]any, len(args))
		for i, a := range args {
			vals[i] = a.f(e)
		}
		return p.db.Func(name, vals)
	}}
}

func cmp(op string, a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	c := order(a, b)
	switch op {
	case "=":
		return c == 0
	case "<>", "!=":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	}
	return c >= 0
}

func order(a, b any) int {
	switch x := a.(type) {
	case string:
		switch y := b.(type) {
		case string:
			return strings.Compare(x, y)
		case int64:
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				sqlerr("22P02", "invalid input syntax for integer: %q", x)
			}
			return order(n, y)
		case bool:
			return order(x == "t" || x == "true", y)
		}
	case int64:
		switch y := b.(type) {
		case int64:
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		case string:
			return -order(b, a)
		}
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return 0
			} else if y {
				return -1
			}
			return 1
		case string:
			return -order(b, a)
		}
	case []int64:
		y := b.([]int64)
		for i := range x {
			if i >= len(y) {
				return 1
			}
			if c := order(x[i], y[i]); c != 0 {
				return c
			}
		}
		if len(x) < len(y) {
			return -1
		}
		return 0
	case []string:
		y := b.([]string)
		for i := range x {
			if i >= len(y) {
				return 1
			}
			if c := strings.Compare(x[i], y[i]); c != 0 {
				return c
			}
		}
		if len(x) < len(y) {
			return -1
		}
		return 0
	}
	unsupported("comparison of %T and %T", a, b)
	return 0
}
