//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- C33: questions about parts of a catalog

// An ask is one question with its answer, or several that are right.
type ask struct {
	name   string
	run    func(c *pg.Conn) (any, error)
	want   string // as JSON; "" if there is nothing by that name
	refuse bool   // what the server shows need not be understood
}

func (q ask) wrong(got any, err error) string {
	switch {
	case errors.Is(err, pg.ErrNotFound):
		if q.want != "" {
			return "it is not found"
		}
	case err != nil:
		if !q.refuse {
			return "it fails: " + err.Error()
		}
	case q.want == "":
		return "there is none, but the answer is " + nilJSON(got)
	case nilJSON(got) != q.want:
		return "the answer is\n  " + nilJSON(got) + "\ninstead of\n  " + q.want
	}
	return ""
}

func none[T any](xs []*T) []*T {
	if xs == nil {
		xs = []*T{}
	}
	return xs
}

// asks are all questions about a catalog: each list of each table, of tables
// that are not there, and each name of a trigger or function everywhere.
func asks(c *cat) (out []ask) {
	add := func(refuse bool, want string, run func(*pg.Conn) (any, error), f string, a ...any) {
		out = append(out, ask{fmt.Sprintf(f, a...), run, want, refuse})
	}
	tables := map[[2]string]*pgsrv.Table{}
	var keys [][2]string
	triggers := map[string]bool{"nosuch": true}
	functions := map[[2]string]*ddl.Function{{"nosuch", "nosuch"}: nil, {"public", "nosuch"}: nil}
	schemas, names := map[string]bool{}, map[string]bool{}
	key := func(s, n string) {
		k := [2]string{s, n}
		if _, ok := tables[k]; !ok {
			tables[k] = nil
			keys = append(keys, k)
		}
	}
	for i := range c.Tables {
		t := &c.Tables[i]
		key(t.Schema, t.Name)
		tables[[2]string{t.Schema, t.Name}] = t
		schemas[t.Schema], names[t.Name] = true, true
		for _, d := range t.Triggers {
			triggers[d.Name] = !d.Hidden
		}
	}
	for s := range schemas {
		for n := range names {
			key(s, n)
		}
	}
	key("public", "nosuch")
	key("nosuch", "nosuch")
	for _, k := range keys {
		s, n, t := k[0], k[1], tables[k]
		visible := t != nil && c.Visible(s, n)
		x := &ddl.Table{StorageParameters: &ddl.TableStorageParameters{}}
		var indexes []*ddl.Index
		var trigs []*ddl.Trigger
		if t != nil {
			// the same catalog with everything in sight
			d := *c
			d2 := pgsrv.Catalog{SearchPath: s, User: d.User, Schemas: d.Schemas, Tables: []pgsrv.Table{*t}}
			for i := range d2.Tables[0].Constraints {
				if r := d2.Tables[0].Constraints[i].Ref; r != "" && r != s+"."+n {
					d2.Tables = append(d2.Tables, pgsrv.Table{Schema: r[:strings.Index(r, ".")], Name: r[strings.Index(r, ".")+1:], Owner: "o"})
				}
			}
			db := want(&d2)
			for _, y := range db.Tables {
				if y.Name == n && y.Schema == s {
					x = y
				}
			}
			indexes, trigs = db.Indexes, db.Triggers
		}
		at := s + "." + n
		sortBy(x.Checks, func(c *ddl.Check) string { return c.Name })
		add(false, nilJSON(none(x.Columns)), func(c *pg.Conn) (any, error) { r, err := c.ListColumns(s, n); return none(r), err }, "columns of %q", at)
		add(false, nilJSON(none(x.Checks)), func(c *pg.Conn) (any, error) {
			r, err := c.ListChecks(s, n)
			sortBy(r, func(c *ddl.Check) string { return c.Name })
			return none(r), err
		}, "checks of %q", at)
		sortBy(x.ForeignKeys, func(c *ddl.ForeignKey) string { return c.Name })
		add(false, nilJSON(none(x.ForeignKeys)), func(c *pg.Conn) (any, error) {
			r, err := c.ListForeignKeys(s, n)
			sortBy(r, func(c *ddl.ForeignKey) string { return c.Name })
			return none(r), err
		}, "foreign keys of %q", at)
		sortBy(indexes, func(c *ddl.Index) string { return c.Name })
		add(len(indexes) > 0 && !visible, nilJSON(none(indexes)), func(c *pg.Conn) (any, error) {
			r, err := c.ListIndexes(s, n)
			sortBy(r, func(c *ddl.Index) string { return c.Name })
			return none(r), err
		}, "indexes of %q", at)
		sortBy(trigs, func(c *ddl.Trigger) string { return c.Name })
		add(len(trigs) > 0 && !visible, nilJSON(none(trigs)), func(c *pg.Conn) (any, error) {
			r, err := c.ListTriggers(s, n)
			sortBy(r, func(c *ddl.Trigger) string { return c.Name })
			return none(r), err
		}, "triggers of %q", at)
		add(false, nilJSON(x.StorageParameters), func(c *pg.Conn) (any, error) { r, err := c.ListTableStorageParameters(s, n); return r, err }, "storage parameters of %q", at)
		for name, shown := range triggers {
			if !shown {
				continue
			}
			w := ""
			for _, y := range trigs {
				if y.Name == name {
					w = nilJSON(y)
				}
			}
			add(w != "" && !visible, w, func(c *pg.Conn) (any, error) { r, err := c.DescribeTrigger(s, n, name); return r, err }, "trigger %q of %q", name, at)
		}
	}
	for _, f := range c.Functions {
		functions[[2]string{f.Schema, f.Name}] = &ddl.Function{Schema: f.Schema, Name: f.Name, Owner: f.Owner, Comment: deref(f.Comment), Returns: deref(f.Returns), Language: f.Language, Definition: f.Definition}
		for s := range schemas {
			if k := [2]string{s, f.Name}; functions[k] == nil {
				functions[k] = nil
			}
		}
	}
	for k, f := range functions {
		w := ""
		if f != nil {
			w = nilJSON(f)
		}
		add(false, w, func(c *pg.Conn) (any, error) { r, err := c.DescribeFunction(k[0], k[1]); return r, err }, "function %q.%q", k[0], k[1])
	}
	db := want(c)
	add(false, nilJSON(bag(db.Functions)), func(c *pg.Conn) (any, error) { r, err := c.ListFunctions(); return bag(r), err }, "functions")
	add(false, nilJSON(bag(db.Sequences)), func(c *pg.Conn) (any, error) { r, err := c.ListSequences(); return bag(r), err }, "sequences")
	add(false, nilJSON(bag(db.Schemas)), func(c *pg.Conn) (any, error) { r, err := c.ListSchemas(); return bag(r), err }, "schemas")
	add(false, nilJSON(db.Parameters), func(c *pg.Conn) (any, error) { r, err := c.ListParameters(); return r, err }, "parameters")
	add(false, nilJSON(c.Version), func(c *pg.Conn) (any, error) { r, err := c.ServerVersion(); return r, err }, "version")
	sortBy2(out)
	return out
}

func sortBy[T any](xs []*T, key func(*T) string) {
	for i := range xs {
		for j := i; j > 0 && key(xs[j]) < key(xs[j-1]); j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}

func sortBy2(xs []ask) {
	for i := range xs {
		for j := i; j > 0 && xs[j].name < xs[j-1].name; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}

// talk opens one connection and asks on it.
func talk(c *cat, p pgsrv.Plan, r *result, f func(conn *pg.Conn)) *pgsrv.Log {
	p.DB = c
	s := pgsrv.Serve(listen(), func(int) pgsrv.Plan { return p })
	defer s.Close()
	problem := guarded(func() {
		conn, err := pg.New(options(s))
		if err != nil {
			r.add("connecting", "connecting fails: %v", err)
			return
		}
		defer conn.Close()
		f(conn)
	})
	if c.BadQuery != "" {
		r.Broken = "the evaluator can't handle " + c.BadQuery
	}
	if problem != "" {
		r.add("talk "+problem, "asking: %s", problem)
	}
	ls := s.Logs()
	if len(ls) == 0 {
		return nil
	}
	ls[0].Closed(10 * time.Second)
	r.count("transitions", len(ls[0].Sent))
	r.count("queries", len(ls[0].Queries))
	r.count("evaluations", 1)
	r.count("traces_validated_against_impl", 1)
	return ls[0]
}

// caseSequences asks every question after every other one of a part of them,
// on one connection.
func caseSequences(name string, mk func() *cat, part, parts int) kase {
	return kase{fmt.Sprintf("%s, part %d of %d", name, part+1, parts), func(_ string, r *result) {
		c := mk()
		qs := asks(c)
		bad := map[string]bool{}
		one := func(conn *pg.Conn, q ask, before string) {
			got, err := q.run(conn)
			r.count("states", 1)
			if w := q.wrong(got, err); w != "" && !bad[q.name] {
				bad[q.name] = true
				r.add(name+": "+q.name+": "+w, "catalog %s, %s, asked after %s: %s", name, q.name, before, w)
			}
		}
		talk(c, pgsrv.Plan{}, r, func(conn *pg.Conn) {
			for i := range qs {
				if i%parts != part {
					continue
				}
				for j := range qs {
					if len(qs) > 60 && (i+j)%5 != 0 && i != j {
						continue
					}
					one(conn, qs[i], "others")
					one(conn, qs[j], qs[i].name)
				}
			}
		})
	}}
}

// caseErrors replaces every message of every answer by an error report,
// and then asks all questions.
func caseErrors(name string, mk func() *cat, part, parts int) kase {
	return kase{fmt.Sprintf("%s, errors, part %d of %d", name, part+1, parts), func(_ string, r *result) {
		start := 0
		for i, q := range asks(mk()) {
			if i%parts != part {
				continue
			}
			if start == 0 {
				var quiet result
				start = connectOnly(mk())
				r.Broken += quiet.Broken
			}
			l := talk(mk(), pgsrv.Plan{}, r, func(conn *pg.Conn) { q.run(conn) })
			if l == nil {
				r.Broken = "no connection"
				return
			}
			for m := start; m < len(l.Sent); m++ {
				if l.Sent[m] == "Z" {
					continue
				}
				c := mk()
				qs := asks(c)
				talk(c, pgsrv.Plan{FaultAt: m + 1, FaultKind: "error", FaultCode: "57014"}, r, func(conn *pg.Conn) {
					r.count("states", 1)
					got, err := q.run(conn)
					at := fmt.Sprintf("catalog %s, %s, with an error in place of message %d (%s) of its answer", name, q.name, m-start+1, l.Sent[m])
					if err == nil || errors.Is(err, pg.ErrNotFound) {
						r.add(at, "%s: the answer is %s, error %v", at, nilJSON(got), err)
						return
					}
					for _, q2 := range qs {
						got, err := q2.run(conn)
						if w := q2.wrong(got, err); w != "" {
							r.add(at+" then "+q2.name, "%s; then %s: %s", at, q2.name, w)
							return
						}
					}
				})
			}
		}
	}}
}

// A spoiler makes one object of a catalog unreadable.
type spoiler struct {
	what  string
	table int
	apply func(t *pgsrv.Table)
	list  string // the question that can't be answered
}

// rotten are the places where something can not be understood.
func rotten(mk func() *cat) (out []spoiler) {
	c := mk()
	for ti, t := range c.Tables {
		at := t.Schema + "." + t.Name
		for i, d := range t.Constraints {
			k := "checks"
			if strings.HasPrefix(d.Def, "FOREIGN") {
				k = "foreign keys"
			}
			for _, v := range []string{"", d.Def[:len(d.Def)-1], "EXCLUDE USING gist (c WITH &&)", d.Def + " ???"} {
				if k == "foreign keys" && !strings.HasSuffix(d.Def, ")") && v == d.Def[:len(d.Def)-1] {
					continue // may be a definition all the same
				}
				out = append(out, spoiler{fmt.Sprintf("%s %d of %s is %q", k, i, at, v), ti, func(t *pgsrv.Table) { t.Constraints[i].Def, t.Constraints[i].Raw = v, "" }, fmt.Sprintf("%s of %q", k, at)})
			}
		}
		for i, d := range t.Indexes {
			for _, v := range []string{"", d.Def[:len(d.Def)-1], "CREATE INDEX", d.Def + " ???"} {
				out = append(out, spoiler{fmt.Sprintf("index %d of %s is %q", i, at, v), ti, func(t *pgsrv.Table) { t.Indexes[i].Def, t.Indexes[i].Raw = v, "" }, fmt.Sprintf("indexes of %q", at)})
			}
		}
		for i, d := range t.Triggers {
			for _, v := range []string{"", d.Def[:len(d.Def)-1], "CREATE TRIGGER", d.Def + " ???"} {
				out = append(out, spoiler{fmt.Sprintf("trigger %d of %s is %q", i, at, v), ti, func(t *pgsrv.Table) { t.Triggers[i].Def, t.Triggers[i].Raw = v, "" }, fmt.Sprintf("triggers of %q", at)})
			}
		}
		for _, o := range opts {
			for _, v := range []string{o.key + "=x", o.key + "=", o.key, o.key + "=1x"} {
				for pos := 0; pos <= len(t.Options); pos++ {
					out = append(out, spoiler{fmt.Sprintf("storage parameter %d of %s is %q", pos, at, v), ti, func(t *pgsrv.Table) {
						t.Options = append(append(append([]string{}, t.Options[:pos]...), v), t.Options[pos:]...)
					}, fmt.Sprintf("storage parameters of %q", at)})
				}
			}
		}
	}
	return
}

// caseRotten asks a question whose answer can't be understood, and then all
// others.
func caseRotten(name string, mk func() *cat) (out []kase) {
	for _, s := range rotten(mk) {
		out = append(out, kase{name + ", " + s.what, func(_ string, r *result) {
			c := mk()
			qs := asks(c)
			c = mk()
			s.apply(&c.Tables[s.table])
			at := "catalog " + name + ", " + s.what
			talk(c, pgsrv.Plan{}, r, func(conn *pg.Conn) {
				r.count("states", 1)
				for _, q := range qs {
					if q.name != s.list {
						continue
					}
					if got, err := q.run(conn); err == nil {
						r.add(at, "%s: no error, the answer is %s", at, nilJSON(got))
						return
					}
				}
				for _, q := range qs {
					if q.name == s.list || strings.HasPrefix(q.name, "trigger ") && strings.HasPrefix(s.list, "triggers of ") {
						continue
					}
					got, err := q.run(conn)
					if w := q.wrong(got, err); w != "" {
						r.add(at+" then "+q.name, "%s; then %s: %s", at, q.name, w)
						return
					}
				}
			})
		}})
	}
	return
}

func partCatalogs() map[string]func() *cat {
	fn := func(c *cat) *cat {
		c.Functions = []pgsrv.Function{{Schema: "public", Name: "f1", Owner: "o", Language: "sql", Definition: "SELECT 1", Returns: sp("integer")},
			{Schema: "app", Name: "f1", Owner: "p", Language: "plpgsql", Definition: "BEGIN\nEND", Returns: sp("trigger"), Comment: sp("c")},
			{Schema: "hidden", Name: "f2", Owner: "q", Language: "sql", Definition: "", Returns: nil}}
		return c
	}
	// hide moves what a hidden table refers to into sight
	hide := func(c *cat, n size) *cat {
		addTable(c, "hidden", "tb", n)
		t := &c.Tables[len(c.Tables)-1]
		for i := range t.Constraints {
			d := &t.Constraints[i]
			d.Name = "hidden_" + d.Name
			if d.Ref != "" {
				d.Ref = "public.tb"
			}
		}
		for i := range t.Columns {
			t.Columns[i].Comment = sp("hidden")
		}
		for i := range t.Triggers {
			t.Triggers[i].Name, t.Triggers[i].Raw = "h_"+t.Triggers[i].Name, strings.Replace(t.Triggers[i].Raw, "TRIGGER ", "TRIGGER h_", 1)
		}
		for i := range t.Indexes {
			t.Indexes[i].Name, t.Indexes[i].Raw = "h_"+t.Indexes[i].Name, strings.Replace(t.Indexes[i].Raw, "INDEX ", "INDEX h_", 1)
		}
		return c
	}
	return map[string]func() *cat{
		"empty": func() *cat { return newCat("public") },
		"two of everything": func() *cat {
			c := fn(newCat("public", "app", "hidden"))
			addTable(c, "public", "tb", all(2))
			addTable(c, "app", "tm", all(1))
			return c
		},
		"hidden namesake": func() *cat {
			c := fn(newCat("public", "hidden"))
			c.Functions[1].Schema = "hidden"
			addTable(c, "public", "tb", all(1))
			return hide(c, all(2))
		},
		"hidden namesake of an empty table": func() *cat {
			c := fn(newCat("hidden", "public", "app"))
			addTable(c, "public", "tb", size{kCol: 2})
			return hide(c, all(2))
		},
		"empty hidden namesake": func() *cat {
			c := fn(newCat("hidden", "public", "app"))
			addTable(c, "public", "tb", all(2))
			return hide(c, size{kCol: 1})
		},
		"namesakes in both schemas": func() *cat {
			c := fn(newCat("public", "app", "hidden"))
			addTable(c, "public", "tb", all(2))
			addTable(c, "public", "x", all(1))
			addTable(c, "app", "y", all(1))
			c.Tables[1].Triggers[0].Name = "tg_z_tb" // the same name on another table
			c.Tables[1].Triggers[0].Def = strings.Replace(c.Tables[1].Triggers[0].Def, "tg_z_x", "tg_z_tb", 1)
			c.Tables[1].Triggers[0].Raw = strings.Replace(c.Tables[1].Triggers[0].Raw, "tg_z_x", "tg_z_tb", 1)
			return c
		},
		"legacy": func() *cat {
			c := fn(newCat("public", "app", "hidden"))
			addTable(c, "public", "tb", all(2))
			c.Legacy = true
			return c
		},
	}
}

var partNames = []string{"empty", "two of everything", "hidden namesake", "hidden namesake of an empty table", "empty hidden namesake", "namesakes in both schemas", "legacy"}

func casesC33() (out []kase) {
	cs := partCatalogs()
	for _, n := range partNames {
		mk := cs[n]
		for p := 0; p < 16; p++ {
			out = append(out, caseSequences(n, mk, p, 16))
		}
	}
	for _, n := range []string{"two of everything", "hidden namesake"} {
		for p := 0; p < 16; p++ {
			out = append(out, caseErrors(n, cs[n], p, 16))
		}
	}
	out = append(out, caseRotten("two of everything", cs["two of everything"])...)
	// every name
	for _, v := range awkward {
		mk := func() *cat {
			c := newCat("public", "app")
			addTable(c, "public", "tb", all(1))
			addTable(c, "app", "tm", all(2))
			c.Tables = append(c.Tables, pgsrv.Table{Schema: "public", Name: "t" + v, Owner: "o", Columns: []pgsrv.Column{{Name: "c" + v, Type: "text", Default: &v}},
				Constraints: []pgsrv.Def{check("k"+v, "c <> 'a'")}, Options: []string{"fillfactor=50"}})
			c.Functions = []pgsrv.Function{{Schema: "public", Name: "f" + v, Owner: "o" + v, Language: "sql", Definition: v, Returns: sp(v), Comment: sp(v)}}
			return c
		}
		out = append(out, caseSequences(fmt.Sprintf("the name %q", v), mk, 0, 1))
	}
	return
}
