//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

// lex reads SQL into tokens: quoted names and literals are decoded, words are
// folded as the server does.
func lex(s string) (out []string, err string) {
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c|32 >= 'a' && c|32 <= 'z' || c >= 0x80
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					return out, "unterminated quote"
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(s[j])
				j++
			}
			if c == '"' {
				out = append(out, "name "+b.String())
			} else {
				out = append(out, "text "+b.String())
			}
			i = j + 1
		case c == '$':
			j := i + 1
			for j < len(s) && word(s[j]) {
				j++
			}
			if j >= len(s) || s[j] != '$' {
				return out, "stray $"
			}
			tag := s[i : j+1]
			k := strings.Index(s[j+1:], tag)
			if k < 0 {
				return out, "unterminated " + tag
			}
			out = append(out, "text "+s[j+1:j+1+k])
			i = j + 1 + k + len(tag)
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case word(c):
			j := i
			for j < len(s) && word(s[j]) {
				j++
			}
			if w := strings.ToLower(s[i:j]); w == "select" {
				out = append(out, "reserved word "+w)
			} else {
				out = append(out, "name "+w)
			}
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out, ""
}

func kw(s string) (out []string) {
	for _, f := range strings.Fields(s) {
		if len(f) == 1 && !(f[0]|32 >= 'a' && f[0]|32 <= 'z') {
			out = append(out, f)
		} else {
			out = append(out, "name "+strings.ToLower(f))
		}
	}
	return
}

func raw(s string) []string {
	t, err := lex(s)
	if err != "" {
		panic(err)
	}
	return t
}

type toks []string

func (t *toks) kw(s string) *toks   { *t = append(*t, kw(s)...); return t }
func (t *toks) name(s string) *toks { *t = append(*t, "name "+s); return t }
func (t *toks) raw(s string) *toks  { *t = append(*t, raw(s)...); return t }
func (t *toks) if_(b bool, s string) *toks {
	if b {
		t.kw(s)
	}
	return t
}

var statements atomic.Int64

// same compares a statement with the expected tokens.
func same(key, sql string, err error, p string, want toks) {
	statements.Add(1)
	if p != "" {
		add(key, p)
		return
	}
	if err != nil {
		add(key, fmt.Sprintf("generating fails: %v", err))
		return
	}
	got, e := lex(sql)
	if e != "" {
		add(key, fmt.Sprintf("%s\nin: %s", e, sql))
		return
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "the end", "the end"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			if (w == "name procedure" || w == "name function") && (g == "name procedure" || g == "name function") {
				continue
			}
			add(fmt.Sprintf("%.1000s", key), fmt.Sprintf("the statement has %.300q where %.300q is described (token %d)\nin: %.3000s", g, w, i+1, sql))
			return
		}
	}
}

func toSQL(f func() (string, error)) (s string, err error, p string) {
	watch.Tick()
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("generating panics: %v", r)
		}
	}()
	s, err = f()
	return
}

var names = []string{"a", "A b", `q"t`, "", `"`, `""`, "é$", "x;--y", "select", "a\nb", `\`, "'", "a.b", "1a", "z_9"}

func pickNames(n int) []string {
	if thorough {
		return names
	}
	return names[:n]
}

// table, primary, trigger and function compare one statement each.
func table(t *ddl.Table) {
	sql, err, p := toSQL(clone(t).ToSQL)
	w := (&toks{}).kw("CREATE TABLE").name(t.Name).kw("(")
	n := 0
	for _, c := range t.Columns {
		w.if_(n > 0, ",").name(c.Name).raw(c.Type).if_(c.NotNull, "NOT NULL")
		if c.Default != "" {
			w.kw("DEFAULT").raw(c.Default)
		}
		n++
	}
	for _, c := range t.Checks {
		w.if_(n > 0, ",")
		if c.Name != "" {
			w.kw("CONSTRAINT").name(c.Name)
		}
		w.kw("CHECK (").raw(c.Expression).kw(")")
		n++
	}
	w.kw(") ;")
	same("table "+describeAny(t), sql, err, p, *w)
}

func primary(x *ddl.Index) {
	sql, err, p := toSQL(clone(x).ToSQL)
	w := (&toks{}).kw("ALTER TABLE").name(x.Table).kw("ADD")
	if x.Name != "" {
		w.kw("CONSTRAINT").name(x.Name)
	}
	w.kw("PRIMARY KEY (")
	for j, key := range x.Keys {
		w.if_(j > 0, ",").name(key.Column)
	}
	w.kw(") ;")
	same("primary key "+describeAny(x), sql, err, p, *w)
}

func trigger(t *ddl.Trigger) {
	sql, err, p := toSQL(clone(t).ToSQL)
	same("trigger "+describeAny(t), sql, err, p, triggerTokens(t, sql))
}

func function(f *ddl.Function) {
	sql, err, p := toSQL(clone(f).ToSQL)
	w := (&toks{}).kw("CREATE OR REPLACE FUNCTION").name(f.Name).kw("( ) RETURNS").raw(f.Returns).kw("AS")
	*w = append(*w, "text \n"+f.Definition)
	w.kw("LANGUAGE")
	*w = append(*w, "text "+f.Language)
	w.kw(";")
	same("function "+describeAny(f), sql, err, p, *w)
}

// clone copies an object, so that what is expected does not depend on what is
// done to it.
func clone[T any](x *T) *T {
	var deep func(v reflect.Value) reflect.Value
	deep = func(v reflect.Value) reflect.Value {
		switch {
		case v.Kind() == reflect.Ptr && !v.IsNil():
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deep(v.Elem()))
			return p
		case v.Kind() == reflect.Slice && !v.IsNil():
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(deep(v.Index(i)))
			}
			return s
		case v.Kind() == reflect.Struct:
			s := reflect.New(v.Type()).Elem()
			for i := 0; i < v.NumField(); i++ {
				s.Field(i).Set(deep(v.Field(i)))
			}
			return s
		}
		return v
	}
	return deep(reflect.ValueOf(x)).Interface().(*T)
}

// special are names and texts that code might treat in a special way.
var special = []string{"user", "table", "primary", "null", "NULL", "Null", "true", "false", "default", "DEFAULT", "group", "order", "check", "unique", "all", "public", "PUBLIC",
	"pg_catalog", "pg_x", "information_schema", "oid", "ctid", "xmin", "id", "ID", "name", "new", "old", "NEW", "a1", "A1", "_a", "__", "1", "-1", "0", "é", "É", "a-b", "a b", " a", "a ", "\ta", "a\n", "%s", "%d", "{{.}}", "${a}", "%%", "/*", "*/", ";", ",", "(", ")", "()", "[]", "=", "NaN", "nil", "<nil>", "undefined", "\u00a0", "\u200b", "\ufeff", "\u2028"}

// wordsSQL are objects with such names, and with many types and expressions.
func wordsSQL() {
	types := []string{"int", "integer", "bigint", "serial", "bigserial", "smallint", "text", "TEXT", "varchar", "character varying", "character varying(50)", "char", "\"char\"", "character(1)",
		"boolean", "date", "time", "timestamp", "timestamp(3) without time zone", "timestamp with time zone", "interval", "interval year to month", "numeric", "numeric(10,2)", "double precision", "real", "money",
		"bytea", "uuid", "json", "jsonb", "xml", "inet", "point", "oid", "regclass", "text[]", "integer[][]", "tsvector", "app.kind", "\"My Type\"", "app.\"My Type\"[]", "bit varying(8)", "public.citext", "name"}
	defaults := []string{"", "NULL", "null", "Null", "NULL::text", "0", "-1", "1.5", "''", "'null'", "''::text", "'a'", "'it''s'", "true", "false", "TRUE", "now()", "CURRENT_TIMESTAMP", "nextval('s'::regclass)",
		"('now'::text)::date", "ARRAY[]::text[]", "'{}'::text[]", "'{}'::jsonb", "E'\\n'", "(1 + 2)", "gen_random_uuid()", "'$$'", "'--'", "'\"'", "default_value()", "\"F\"()", "timezone('utc'::text, now())", "'not null'", "'default'"}
	each(len(types), func(i int) {
		for _, d := range defaults {
			for m := 0; m < 2; m++ {
				for k := 0; k < 2; k++ {
					t := &ddl.Table{Schema: "s", Name: "t", Columns: []*ddl.Column{{Name: "a", Type: types[i], Default: d, NotNull: m > 0}}}
					if k > 0 {
						t.Columns = append(t.Columns, &ddl.Column{Name: "b", Type: "int"})
						t.Checks = []*ddl.Check{{Expression: "a IS NULL"}}
					}
					table(t)
				}
			}
			table(&ddl.Table{Name: "t", Columns: []*ddl.Column{{Name: "a", Type: "text", Default: d, Comment: "comment"}, {Name: "b", Type: types[i], Default: d}}})
		}
		function(&ddl.Function{Name: "f", Returns: types[i], Language: "sql", Definition: "SELECT 1"})
		function(&ddl.Function{Name: "f", Returns: "SETOF " + types[i], Language: "sql", Definition: "SELECT 1"})
	})
	exprs := []string{"true", "false", "NULL", "null", "a IS NOT NULL", "a > 0", "(a > 0)", "((a > 0))", "(a > 0) AND (b > 0)", "a = 'CHECK (b)'", "(a)::text <> ''::text", "a ~ '^[a-z]+$'::text", "a = ANY (ARRAY['x'::text, 'y'::text])",
		"a = ')'", "a = '('", "length(a) < 5", "NOT a", "\"A b\" > 1", "a > 0 -- x\n", "a > 0 /* y */", "CHECK (a > 0)"}
	each(len(exprs), func(i int) {
		for _, n := range append([]string{""}, special...) {
			for _, e2 := range exprs {
				table(&ddl.Table{Name: "t", Columns: []*ddl.Column{{Name: "a", Type: "int"}}, Checks: []*ddl.Check{{Name: n, Expression: exprs[i]}, {Name: "other", Expression: e2}}})
			}
		}
	})
	each(len(special), func(i int) {
		n := special[i]
		for _, m := range special {
			table(&ddl.Table{Schema: m, Name: n, Comment: m, Owner: m, Columns: []*ddl.Column{{Name: m, Type: "int", Comment: n}, {Name: n, Type: "int"}}, Checks: []*ddl.Check{{Name: m, Expression: "true"}}})
			for k := 0; k < 4; k++ {
				x := &ddl.Index{Schema: n, Primary: true, Unique: k&1 > 0, Table: n, Name: m, Using: "btree", Keys: []*ddl.IndexKey{{Column: m}, {Column: n}}}
				if k&2 > 0 {
					x.Name, x.Keys = "", x.Keys[:1]
				}
				primary(x)
			}
			for k := 0; k < 8; k++ {
				t := &ddl.Trigger{Schema: m, Name: n, Table: m, When: "AFTER", Function: "f", Insert: k&1 > 0, Update: true, ForEachRow: k&2 > 0}
				if k&4 > 0 {
					t.Columns = []string{n, m}
				}
				trigger(t)
			}
			function(&ddl.Function{Schema: m, Name: "f_" + n, Returns: "integer", Language: m, Definition: n})
			function(&ddl.Function{Name: "f", Returns: "integer", Language: n, Definition: n + "\n" + m, Owner: m, Comment: n})
		}
	})
}

// largeSQL are objects with many columns and keys, and with long names and
// texts.
func largeSQL() {
	counts, lengths := []int{5, 9, 17, 33, 65, 130, 400, 1600}, []int{31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097, 70000}
	if thorough {
		counts, lengths = nil, append(lengths, 1000000)
		for n := 4; n < 300; n++ {
			counts = append(counts, n)
			lengths = append(lengths, n)
		}
	}
	name := func(i int) string { return fmt.Sprintf("%s %d", names[i%len(names)], i) }
	each(len(counts), func(k int) {
		n := counts[k]
		t := &ddl.Table{Name: "t"}
		x := &ddl.Index{Primary: true, Unique: true, Table: "t", Name: "x"}
		var cols []string
		for i := 0; i < n; i++ {
			c := &ddl.Column{Name: name(i), Type: fmt.Sprintf("VARCHAR(%d)", i+1), NotNull: i%3 == 0}
			if i%2 == 1 {
				c.Default = fmt.Sprintf("f(%d)", i)
			}
			t.Columns = append(t.Columns, c)
			x.Keys = append(x.Keys, &ddl.IndexKey{Column: name(i)})
			cols = append(cols, name(i))
		}
		table(t)
		for i := 0; i < n; i++ {
			c := &ddl.Check{Expression: fmt.Sprintf("a > %d", i)}
			if i%3 > 0 {
				c.Name = name(i)
			}
			t.Checks = append(t.Checks, c)
		}
		table(t)
		t.Columns = t.Columns[:1]
		table(t)
		primary(x)
		for m := 0; m < 8; m++ {
			trigger(&ddl.Trigger{Name: "g", Table: "t", When: "BEFORE", Function: "f", Columns: cols, Update: true, Insert: m&1 > 0, Delete: m&2 > 0, Truncate: m&4 > 0})
		}
	})
	each(len(lengths), func(k int) {
		n := lengths[k]
		for _, form := range []string{"l", "\"", " ", "é", "$", "l\n", "'", "\\", "$q$", "$$"} {
			x := strings.Repeat(form, n/len(form)+1)
			table(&ddl.Table{Name: x + "t", Columns: []*ddl.Column{{Name: x + "a", Type: "int"}, {Name: x + "b", Type: "int"}}, Checks: []*ddl.Check{{Name: x, Expression: "a > 0"}, {Name: x + "b", Expression: "b > 0"}}})
			primary(&ddl.Index{Primary: true, Unique: true, Table: x + "t", Name: x, Keys: []*ddl.IndexKey{{Column: x + "a"}, {Column: x + "b"}}})
			trigger(&ddl.Trigger{Name: x + "g", Table: x + "t", When: "AFTER", Function: "f", Update: true, Columns: []string{x + "a", x + "b"}})
			for _, lang := range []string{"sql", x} {
				function(&ddl.Function{Name: x + "f", Returns: "integer", Language: lang, Definition: x})
				function(&ddl.Function{Name: "f", Returns: "integer", Language: lang, Definition: x + "\n" + x})
			}
		}
		long := strings.Repeat("l", n)
		table(&ddl.Table{Name: "t", Columns: []*ddl.Column{{Name: "a", Type: long, Default: long + "()"}}, Checks: []*ddl.Check{{Expression: long + " > '" + long + "'"}}})
		trigger(&ddl.Trigger{Name: "g", Table: "t", When: "AFTER", Function: long, Delete: true})
		function(&ddl.Function{Name: "f", Returns: long, Language: "sql", Definition: ""})
	})
}

func sqlMain() {
	ns := pickNames(12)
	// tables
	types := []string{"int", "VARCHAR(50)", "timestamp with time zone"}
	defaults := []string{"", "now()", "'x  ''y'::text"}
	exprs := []string{"length(a) > 0", "(a IN (1, 2))", "a <> ')'"}
	var cols []*ddl.Column
	for i, n := range ns {
		for d := range defaults {
			cols = append(cols, &ddl.Column{Name: n, Type: types[(i+d)%3], NotNull: (i+d)%2 == 0, Default: defaults[d]})
			cols = append(cols, &ddl.Column{Name: n, Type: types[(i+d+1)%3], NotNull: (i+d)%2 == 1, Default: defaults[d]})
		}
	}
	var checkSets [][]*ddl.Check
	checkSets = append(checkSets, nil)
	for i, n := range ns {
		checkSets = append(checkSets, []*ddl.Check{{Name: n, Expression: exprs[i%3]}})
		checkSets = append(checkSets, []*ddl.Check{{Name: n, Expression: exprs[i%3]}, {Expression: exprs[(i+1)%3]}})
	}
	each(len(cols)+1, func(i int) {
		for _, cs := range checkSets {
			for k, n := range ns {
				if i == len(cols) {
					table(&ddl.Table{Name: n, Checks: cs})
					continue
				}
				table(&ddl.Table{Schema: "s", Name: n, Columns: []*ddl.Column{cols[i]}, Checks: cs})
				if k < 3 {
					for _, c2 := range cols {
						table(&ddl.Table{Name: n, Columns: []*ddl.Column{cols[i], c2}, Checks: cs[:len(cs)/2]})
						table(&ddl.Table{Name: n, Columns: []*ddl.Column{cols[i], c2, cols[(i+k)%len(cols)]}, Checks: cs})
					}
				}
			}
		}
	})
	// primary keys
	each(len(ns), func(i int) {
		for _, name := range append([]string{""}, ns...) {
			for _, a := range ns {
				for k := -1; k < len(ns)*len(ns); k++ {
					x := &ddl.Index{Primary: true, Unique: true, Table: ns[i], Name: name, Keys: []*ddl.IndexKey{{Column: a}}}
					if k >= 0 {
						x.Keys = append(x.Keys, &ddl.IndexKey{Column: ns[k%len(ns)]})
						if k/len(ns) > 0 {
							x.Keys = append(x.Keys, &ddl.IndexKey{Column: ns[k/len(ns)]})
						}
					}
					primary(x)
				}
			}
		}
	})
	// triggers: every combination of events and flags, every name
	var colSets [][]string
	colSets = append(colSets, nil)
	for i, n := range ns {
		colSets = append(colSets, []string{n}, []string{n, ns[(i+1)%len(ns)]}, []string{n, "b", ns[(i+2)%len(ns)]})
	}
	each(1<<8, func(m int) {
		bit := func(i int) bool { return m&(1<<i) != 0 }
		if m&15 == 0 {
			return // a trigger without an event is not a trigger
		}
		for _, when := range []string{"BEFORE", "AFTER", "INSTEAD OF"} {
			for i, n := range ns {
				for _, tab := range ns {
					for ci, cs := range colSets {
						if !bit(1) && ci > 0 || ci > 0 && i > 2 && !thorough {
							break
						}
						t := &ddl.Trigger{Schema: "s", Name: n, Table: tab, When: when, Function: "f_1", Columns: cs,
							Insert: bit(0), Update: bit(1), Delete: bit(2), Truncate: bit(3),
							Constraint: bit(4), Deferrable: bit(5), InitiallyDeferred: bit(6), ForEachRow: bit(7)}
						trigger(t)
					}
				}
			}
		}
	})
	// functions
	bodies := []string{"BEGIN\nEND;\n", "", "$", "$$", "a $q$ b", "$$ LANGUAGE 'c'; DROP", "x$q", "'", "--", "\"", "$q$$", "é", "$qq$ $$ $q$", "$$q$$", "q$"}
	each(len(bodies), func(i int) {
		for _, n := range ns {
			for _, lang := range []string{"plpgsql", "SQL", "o'q", ""} {
				for _, ret := range []string{"TRIGGER", "integer", "timestamp with time zone"} {
					f := &ddl.Function{Schema: "s", Name: n, Returns: ret, Language: lang, Definition: bodies[i]}
					if n == "select" {
						continue // reserved words as names of functions are not covered
					}
					function(f)
				}
			}
		}
	})
	largeSQL()
	wordsSQL()
	rep.Coverage["states"] = statements.Load()
	rep.Coverage["transitions"] = statements.Load()
	rep.Coverage["traces_validated_against_impl"] = statements.Load()
	rep.Coverage["bound"] = "every table of up to three columns and two checks, every primary key of up to three columns, every combination of a trigger's events, timing, flags and up to three columns, functions with every awkward body; over an alphabet of names with quotes, blanks, line breaks, dollar signs, semicolons and non-ASCII"
	t := &ddl.Trigger{Name: `q"t`, Table: "A b", When: "AFTER", Insert: true, Update: true, Columns: []string{"a", `"`}, Function: "f"}
	s, _, _ := toSQL(t.ToSQL)
	rep.Coverage["samples"] = []any{s}
}

// triggerTokens is what a trigger's statement must consist of; the order of
// its events is free.
func triggerTokens(t *ddl.Trigger, sql string) toks {
	events := map[string]toks{}
	if t.Insert {
		events["name insert"] = kw("INSERT")
	}
	if t.Delete {
		events["name delete"] = kw("DELETE")
	}
	if t.Truncate {
		events["name truncate"] = kw("TRUNCATE")
	}
	if t.Update {
		u := (&toks{}).kw("UPDATE")
		for i, c := range t.Columns {
			if i == 0 {
				u.kw("OF")
			} else {
				u.kw(",")
			}
			u.name(c)
		}
		events["name update"] = *u
	}
	w := (&toks{}).kw("CREATE").if_(t.Constraint, "CONSTRAINT").kw("TRIGGER").name(t.Name).kw(t.When)
	got, _ := lex(sql)
	for first := true; len(events) > 0; first = false {
		w.if_(!first, "OR")
		next := ""
		if len(got) > len(*w) {
			next = got[len(*w)]
		}
		e, ok := events[next]
		if !ok {
			for _, k := range []string{"name insert", "name update", "name delete", "name truncate"} {
				if x, has := events[k]; has {
					next, e = k, x
					break
				}
			}
		}
		delete(events, next)
		*w = append(*w, e...)
	}
	w.kw("ON").name(t.Table).if_(t.Deferrable, "DEFERRABLE").if_(t.InitiallyDeferred, "INITIALLY DEFERRED").if_(t.ForEachRow, "FOR EACH ROW")
	w.kw("EXECUTE PROCEDURE").name(t.Function).kw("( ) ;")
	return *w
}

func describeAny(v any) string { return fmt.Sprintf("%+v", plainText(v)) }

func plainText(v any) string {
	switch x := v.(type) {
	case *ddl.Table:
		s := fmt.Sprintf("%q", x.Name)
		for _, c := range x.Columns {
			s += fmt.Sprintf(" %q", *c)
		}
		for _, c := range x.Checks {
			s += fmt.Sprintf(" check %q", *c)
		}
		return s
	case *ddl.Index:
		s := fmt.Sprintf("%q on %q", x.Name, x.Table)
		for _, k := range x.Keys {
			s += fmt.Sprintf(" %q", k.Column)
		}
		return s
	case *ddl.Trigger:
		return fmt.Sprintf("%+q", *x)
	case *ddl.Function:
		return fmt.Sprintf("%+q", *x)
	}
	return ""
}
