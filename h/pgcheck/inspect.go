//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

type cat = pgsrv.Catalog

func sp(s string) *string { return &s }

func deref(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

// ---- what a description of a catalog has to say

func want(c *cat) *ddl.Database {
	db := &ddl.Database{Parameters: &ddl.Parameters{SearchPath: strings.Split(c.SearchPath, ","), Timezone: c.Timezone}}
	for _, s := range c.Schemas {
		if !strings.HasPrefix(s.Name, "pg_") {
			db.Schemas = append(db.Schemas, &ddl.Schema{Name: s.Name, Owner: s.Owner, Comment: deref(s.Comment)})
		}
	}
	for i, f := range c.Functions {
		if c.FuncVisible(i) {
			db.Functions = append(db.Functions, &ddl.Function{Schema: f.Schema, Name: f.Name, Owner: f.Owner, Comment: deref(f.Comment),
				Returns: deref(f.Returns), Language: f.Language, Definition: f.Definition})
		}
	}
	for _, s := range c.Sequences {
		if !c.Visible(s.Schema, s.Name) {
			continue
		}
		ty := s.Type
		if ty == "" || c.Legacy {
			ty = "bigint"
		}
		q := &ddl.Sequence{Schema: s.Schema, Name: s.Name, Owner: s.Owner, Comment: deref(s.Comment), DataType: ty,
			Start: s.Start, Minimum: s.Min, Maximum: s.Max, Increment: s.Inc, Cache: s.Cache, Cycle: s.Cycle}
		if s.OwnTable != "" {
			q.OwnedBy = &ddl.SequenceOwner{Schema: s.OwnSchema, Table: s.OwnTable, Column: s.OwnColumn}
		}
		db.Sequences = append(db.Sequences, q)
	}
	for _, i := range c.VisibleTables() {
		t := &c.Tables[i]
		x := &ddl.Table{Schema: t.Schema, Name: t.Name, Owner: t.Owner, Comment: deref(t.Comment)}
		for _, col := range t.Columns {
			if !col.Dropped {
				x.Columns = append(x.Columns, &ddl.Column{Name: col.Name, Type: col.Type, NotNull: col.NotNull, Default: deref(col.Default), Comment: deref(col.Comment)})
			}
		}
		for _, d := range t.Constraints {
			switch w := d.Want.(type) {
			case ddl.Check:
				w.Name = d.Name
				x.Checks = append(x.Checks, &w)
			case ddl.ForeignKey:
				w.Name = d.Name
				x.ForeignKeys = append(x.ForeignKeys, &w)
			}
		}
		x.StorageParameters = &ddl.TableStorageParameters{}
		for _, o := range t.Options {
			setOption(x.StorageParameters, o)
		}
		for _, d := range t.Indexes {
			w := d.Want.(ddl.Index)
			w.Schema, w.Table, w.Name, w.Primary, w.Unique = t.Schema, t.Name, d.Name, d.First, d.Unique
			db.Indexes = append(db.Indexes, &w)
		}
		for _, d := range t.Triggers {
			if !d.Hidden {
				w := d.Want.(ddl.Trigger)
				w.Schema, w.Table, w.Name = t.Schema, t.Name, d.Name
				db.Triggers = append(db.Triggers, &w)
			}
		}
		db.Tables = append(db.Tables, x)
	}
	return db
}

type opt struct {
	key string
	val []string
	set func(p *ddl.TableStorageParameters, v string)
}

func num(f func(p *ddl.TableStorageParameters) **int) func(*ddl.TableStorageParameters, string) {
	return func(p *ddl.TableStorageParameters, v string) {
		var n int
		fmt.Sscan(v, &n)
		*f(p) = &n
	}
}

func flt(f func(p *ddl.TableStorageParameters) **float64) func(*ddl.TableStorageParameters, string) {
	return func(p *ddl.TableStorageParameters, v string) {
		var n float64
		fmt.Sscan(v, &n)
		*f(p) = &n
	}
}

func boo(f func(p *ddl.TableStorageParameters) **bool) func(*ddl.TableStorageParameters, string) {
	return func(p *ddl.TableStorageParameters, v string) {
		b := v == "1" || strings.ContainsAny(v[:1], "tTyY") || strings.EqualFold(v, "on")
		*f(p) = &b
	}
}

type tsp = ddl.TableStorageParameters

var (
	ints  = []string{"0", "1", "75", "2000000000"}
	flts  = []string{"0", "0.2", "1", "0.05"}
	bools = []string{"true", "false", "on", "off", "yes", "no", "1", "0", "TRUE", "Off", "t", "f", "y", "n", "ye", "of", "tru", "fAl", "ON"}
	opts  = []opt{
		{"fillfactor", []string{"10", "75", "100"}, num(func(p *tsp) **int { return &p.Fillfactor })},
		{"parallel_workers", ints, num(func(p *tsp) **int { return &p.ParallelWorkers })},
		{"autovacuum_enabled", bools, boo(func(p *tsp) **bool { return &p.AutovacuumEnabled })},
		{"autovacuum_vacuum_threshold", ints, num(func(p *tsp) **int { return &p.AutovacuumVacuumThreshold })},
		{"autovacuum_vacuum_scale_factor", flts, flt(func(p *tsp) **float64 { return &p.AutovacuumVacuumScaleFactor })},
		{"autovacuum_analyze_threshold", ints, num(func(p *tsp) **int { return &p.AutovacuumAnalyzeThreshold })},
		{"autovacuum_analyze_scale_factor", flts, flt(func(p *tsp) **float64 { return &p.AutovacuumAnalyzeScaleFactor })},
		{"autovacuum_vacuum_cost_limit", ints, num(func(p *tsp) **int { return &p.AutovacuumVacuumCostDelay })},
		{"autovacuum_freeze_min_age", ints, num(func(p *tsp) **int { return &p.AutovacuumFreezeMinAge })},
		{"autovacuum_freeze_max_age", ints, num(func(p *tsp) **int { return &p.AutovacuumFreezeMaxAge })},
		{"autovacuum_freeze_table_age", ints, num(func(p *tsp) **int { return &p.AutovacuumFreezeTableAge })},
		{"autovacuum_multixact_freeze_min_age", ints, num(func(p *tsp) **int { return &p.AutovacuumMultixactFreezeMinAge })},
		{"autovacuum_multixact_freeze_max_age", ints, num(func(p *tsp) **int { return &p.AutovacuumMultixactFreezeMaxAge })},
		{"autovacuum_multixact_freeze_table_age", ints, num(func(p *tsp) **int { return &p.AutovacuumMultixactFreezeTableAge })},
		{"log_autovacuum_min_duration", []string{"-1", "0", "250"}, num(func(p *tsp) **int { return &p.LogAutovacuumMinDuration })},
		{"user_catalog_table", bools, boo(func(p *tsp) **bool { return &p.UserCatalogTable })},
	}
)

func setOption(p *tsp, o string) {
	k, v, _ := strings.Cut(o, "=")
	for _, x := range opts {
		if x.key == k {
			x.set(p, v)
		}
	}
}

// ---- building blocks

func check(name, e string) pgsrv.Def {
	return pgsrv.Def{Name: name, Def: "CHECK (" + e + ")", Raw: "CHECK ((" + e + "))", Kind: "c", Want: ddl.Check{Expression: e}}
}

func fk(name, refSchema, ref string, key int64, cols, refs []string, tail string, w ddl.ForeignKey) pgsrv.Def {
	w.Table, w.Columns, w.Referenced = ref, cols, refs
	d := "FOREIGN KEY (" + strings.Join(cols, ", ") + ") REFERENCES " + ref + "(" + strings.Join(refs, ", ") + ")" + tail
	return pgsrv.Def{Name: name, Def: d, Kind: "f", Ref: refSchema + "." + ref, Cols: []int64{key}, Want: w}
}

func index(name, schema, table string, primary, unique bool, keys string, w []*ddl.IndexKey) pgsrv.Def {
	u := ""
	if unique {
		u = "UNIQUE "
	}
	mk := func(on string) string {
		return "CREATE " + u + "INDEX " + name + " ON " + on + " USING btree (" + keys + ")"
	}
	return pgsrv.Def{Name: name, Def: mk(table), Raw: mk(schema + "." + table), First: primary, Unique: unique, Want: ddl.Index{Using: "btree", Keys: w}}
}

func trigger(name, schema, table, when, events, fn string, w ddl.Trigger) pgsrv.Def {
	mk := func(on string) string {
		return "CREATE TRIGGER " + name + " " + when + " " + events + " ON " + on + " FOR EACH ROW EXECUTE PROCEDURE " + fn + "()"
	}
	w.When, w.ForEachRow, w.Function = when, true, fn
	return pgsrv.Def{Name: name, Def: mk(table), Raw: mk(schema + "." + table), Want: w}
}

// kinds of objects of a table
const (
	kCol = iota
	kCheck
	kFK
	kIndex
	kTrigger
	kSeq
	kOption
	kinds
)

type size [kinds]int

// addTable adds a table with the given numbers of objects. With two objects
// of a kind, the first that is declared comes second in alphabetical order.
func addTable(c *cat, schema, name string, n size) {
	t := pgsrv.Table{Schema: schema, Name: name, Owner: "own_" + name, Comment: sp("table " + schema + "." + name)}
	q := func(s string) string { return s + "_" + name }
	cols := n[kCol]
	if n[kFK]+n[kSeq] > 0 && cols < 2 {
		cols = 2
	}
	for i, x := range []string{"zid", "body"}[:cols] {
		col := pgsrv.Column{Name: x, Type: []string{"integer", "character varying(50)"}[i], NotNull: i == 0, Comment: sp("column " + q(x))}
		if i == 1 {
			col.Default, col.Comment = sp("'"+q("d")+"'::text"), nil
		}
		t.Columns = append(t.Columns, col)
	}
	for i := 0; i < n[kCheck]; i++ {
		t.Constraints = append(t.Constraints, check([]string{q("ck_z"), q("ck_a")}[i], []string{"zid > 1", "zid < 9"}[i]+" OR "+q("x")+" IS NULL"))
	}
	for i := 0; i < n[kFK]; i++ {
		if i == 0 {
			t.Constraints = append(t.Constraints, fk(q("fk_z"), schema, name, 1, []string{"zid"}, []string{"zid"}, " ON DELETE CASCADE", ddl.ForeignKey{OnDelete: "CASCADE"}))
		} else {
			t.Constraints = append(t.Constraints, fk(q("fk_a"), schema, name, 2, []string{"body", "zid"}, []string{"zid", "body"}, " DEFERRABLE INITIALLY DEFERRED", ddl.ForeignKey{Deferrable: true, InitiallyDeferred: true}))
		}
	}
	for i := 0; i < n[kIndex]; i++ {
		if i == 0 {
			t.Indexes = append(t.Indexes, index(q("ix_z"), schema, name, false, true, "body DESC", []*ddl.IndexKey{{Column: "body", Descending: true}}))
		} else {
			t.Indexes = append(t.Indexes, index(q("ix_a"), schema, name, true, true, "zid, body", []*ddl.IndexKey{{Column: "zid"}, {Column: "body"}}))
		}
	}
	for i := 0; i < n[kTrigger]; i++ {
		if i == 0 {
			t.Triggers = append(t.Triggers, trigger(q("tg_z"), schema, name, "BEFORE", "UPDATE", q("fn"), ddl.Trigger{Update: true}))
		} else {
			t.Triggers = append(t.Triggers, trigger(q("tg_a"), schema, name, "AFTER", "INSERT OR DELETE", q("fn2"), ddl.Trigger{Insert: true, Delete: true}))
		}
	}
	for i := 0; i < n[kSeq]; i++ {
		s := pgsrv.Sequence{Schema: schema, Name: []string{q("sq_z"), q("sq_a")}[i], Owner: t.Owner, Type: []string{"bigint", "integer"}[i], Comment: []*string{nil, sp(q("sequence"))}[i],
			Start: 1 + int64(i), Min: -5, Max: 1<<40 + int64(i), Inc: 3, Cache: 7, Cycle: i == 1, OwnSchema: schema, OwnTable: name, OwnColumn: t.Columns[i].Name, Deps: []string{"a", "i"}[i]}
		c.Sequences = append(c.Sequences, s)
	}
	for i := 0; i < n[kOption]; i++ {
		t.Options = append(t.Options, []string{"fillfactor=75", "autovacuum_enabled=false"}[i])
	}
	c.Tables = append(c.Tables, t)
}

func newCat(schemas ...string) *cat {
	c := &cat{SearchPath: `"$user", public, app`, Timezone: "UTC", User: "u", Version: "PostgreSQL 9.6.15 on none"}
	for i, s := range schemas {
		c.Schemas = append(c.Schemas, pgsrv.Schema{Name: s, Owner: "boss_" + s, Comment: []*string{sp("schema " + s), nil}[i%2]})
	}
	return c
}

// ---- comparison

func js(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func nilJSON(x any) string {
	s := js(x)
	s = strings.ReplaceAll(s, ":[]", ":null")
	return s
}

func items[T any](xs []T) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = nilJSON(x)
	}
	return out
}

func bag[T any](xs []T) []string {
	out := items(xs)
	sort.Strings(out)
	return out
}

// diff compares the lists as bags, but the columns of a table as a list.
func diff(got, want *ddl.Database, sortedCols bool) string {
	if got == nil {
		return "there is no description"
	}
	var out []string
	cmp := func(what string, g, w []string) {
		if strings.Join(g, "\n") == strings.Join(w, "\n") {
			return
		}
		gm, wm := map[string]int{}, map[string]int{}
		for _, x := range g {
			gm[x]++
		}
		for _, x := range w {
			wm[x]++
		}
		n := len(out)
		for _, x := range w {
			if gm[x] < wm[x] {
				out = append(out, what+": missing "+x)
				wm[x]--
			}
		}
		for _, x := range g {
			if gm[x] > wm[x] {
				out = append(out, what+": unexpected "+x)
				gm[x]--
			}
		}
		if len(out) == n {
			out = append(out, what+": order "+strings.Join(g, " "))
		}
	}
	cmp("parameters", []string{nilJSON(got.Parameters)}, []string{nilJSON(want.Parameters)})
	cmp("schemas", bag(got.Schemas), bag(want.Schemas))
	cmp("functions", bag(got.Functions), bag(want.Functions))
	cmp("sequences", bag(got.Sequences), bag(want.Sequences))
	cmp("indexes", bag(got.Indexes), bag(want.Indexes))
	cmp("triggers", bag(got.Triggers), bag(want.Triggers))
	key := func(t *ddl.Table) string { return fmt.Sprintf("%q.%q", t.Schema, t.Name) }
	wm := map[string]*ddl.Table{}
	var gk, wk []string
	for _, t := range want.Tables {
		wm[key(t)] = t
		wk = append(wk, key(t))
	}
	for _, t := range got.Tables {
		gk = append(gk, key(t))
	}
	sort.Strings(gk)
	sort.Strings(wk)
	cmp("tables", gk, wk)
	if len(out) > 0 {
		return strings.Join(out, "\n")
	}
	for _, t := range got.Tables {
		w := wm[key(t)]
		k := "table " + key(t)
		cmp(k, []string{js([]string{t.Owner, t.Comment})}, []string{js([]string{w.Owner, w.Comment})})
		if sortedCols {
			cmp(k+" columns", bag(t.Columns), bag(w.Columns))
		} else {
			cmp(k+" columns", items(t.Columns), items(w.Columns))
		}
		cmp(k+" checks", bag(t.Checks), bag(w.Checks))
		cmp(k+" foreign keys", bag(t.ForeignKeys), bag(w.ForeignKeys))
		if sp := t.StorageParameters; sp == nil {
			cmp(k+" storage parameters", []string{"none"}, []string{js(w.StorageParameters)})
		} else {
			cmp(k+" storage parameters", []string{js(sp)}, []string{js(w.StorageParameters)})
		}
	}
	return strings.Join(out, "\n")
}

// inspect reads a catalog through the real code.
func inspect(c *cat, o *pg.InspectOptions, r *result, p pgsrv.Plan) (db *ddl.Database, log *pgsrv.Log, err error) {
	p.DB = c
	s := pgsrv.Serve(listen(), func(int) pgsrv.Plan { return p })
	defer s.Close()
	problem := guarded(func() {
		var conn *pg.Conn
		conn, err = pg.New(options(s))
		if err != nil {
			err = fmt.Errorf("connecting: %w", err)
			return
		}
		defer conn.Close()
		db, err = conn.InspectDatabase(o)
	})
	if c.BadQuery != "" {
		r.Broken = "the evaluator can't handle " + c.BadQuery
	}
	logs := s.Logs()
	if len(logs) > 0 {
		log = logs[0]
		r.count("transitions", len(log.Sent))
		r.count("queries", len(log.Queries))
	}
	r.count("evaluations", 1)
	r.count("traces_validated_against_impl", 1)
	if problem != "" {
		err = fmt.Errorf("%s", problem)
		r.add("hang "+problem, "an inspection: %s", problem)
	}
	return db, log, err
}

// ---- C16

func caseC16(name string, mk func() *cat, o *pg.InspectOptions) kase {
	return kase{name, func(name string, r *result) {
		c := mk()
		db, _, err := inspect(c, o, r, pgsrv.Plan{})
		r.count("states", 1)
		r.count("distinct_nontrivial", 1)
		if err != nil {
			r.add(name+": error", "catalog %s: the inspection fails: %v", name, err)
			return
		}
		if d := diff(db, want(c), o != nil && o.SortColumns); d != "" {
			r.add(name+": "+d, "catalog %s: the description differs:\n%s", name, d)
		}
	}}
}

func all(n int) (s size) {
	for k := range s {
		s[k] = n
	}
	return
}

var awkward = []string{"x", "", "A b", `q"uote`, "it's", "ünï✓", "a.b", "$1", "%s\\n", "tab\tnl\nx", "null", "pg_x", strings.Repeat("long", 15)}

func casesC16() (out []kase) {
	add := func(name string, mk func() *cat) { out = append(out, caseC16(name, mk, nil)) }

	// numbers of objects of each kind on each of three tables
	for base := 0; base <= 1; base++ {
		for k := 0; k < kinds; k++ {
			for x := 0; x < 27; x++ {
				n := [3]int{x / 9, x / 3 % 3, x % 3}
				add(fmt.Sprintf("counts base=%d kind=%d %v", base, k, n), func() *cat {
					c := newCat("app", "public")
					for i, t := range [][2]string{{"public", "tb"}, {"app", "tm"}, {"public", "ta"}} {
						s := all(base)
						s[k] = n[i]
						addTable(c, t[0], t[1], s)
					}
					return c
				})
			}
		}
	}
	// every combination of kinds present or absent, next to a full table
	for x := 0; x < 1<<kinds; x++ {
		for _, two := range []int{1, 2} {
			add(fmt.Sprintf("kinds %07b x%d", x, two), func() *cat {
				c := newCat("public")
				var s size
				for k := range s {
					s[k] = x >> k & 1 * two
				}
				addTable(c, "public", "m", s)
				addTable(c, "public", "a", all(2))
				return c
			})
		}
	}
	// pairs of kinds with differing counts
	for k := 0; k < kinds; k++ {
		for l := k + 1; l < kinds; l++ {
			for x := 0; x < 81; x++ {
				add(fmt.Sprintf("pair %d,%d %d", k, l, x), func() *cat {
					c := newCat("public", "app")
					a, b := all(0), all(0)
					a[k], a[l], b[k], b[l] = x/27, x/9%3, x/3%3, x%3
					addTable(c, "app", "t", a)
					addTable(c, "public", "s", b)
					return c
				})
			}
		}
	}
	// numbers of tables, in every order, with and without the same names in two schemas
	for _, names := range [][]string{{}, {"public.a"}, {"public.a", "app.b"}, {"public.a", "public.b", "app.c"}, {"app.a", "app.b", "public.c"}, {"public.a", "app.a", "app.b"},
		{"public.a", "hidden.a", "hidden.b"}, {"u.a", "public.a", "app.a"}, {"public.t", "public.tt", "app.ttt"}} {
		permute(len(names), func(p []int) {
			p = append([]int{}, p...)
			add(fmt.Sprintf("tables %v order %v", names, p), func() *cat {
				c := newCat("public", "app", "hidden", "u")
				for j, i := range p {
					schema, name, _ := strings.Cut(names[i], ".")
					addTable(c, schema, name, size{2, 1 + j%2, 1, 2, j % 3, 1, j % 2})
				}
				return c
			})
		})
	}
	// every subset of things that must not, or must all the same, be shown
	decoys := []func(c *cat){
		func(c *cat) { // a dropped column, in front and in the middle
			t := &c.Tables[0]
			t.Columns = append([]pgsrv.Column{{Name: "gone", Type: "text", Dropped: true}}, t.Columns...)
			t.Columns = append(t.Columns, pgsrv.Column{Name: "x", Type: "text", Dropped: true}, pgsrv.Column{Name: "last", Type: "text"})
		},
		func(c *cat) { addTable(c, "hidden", "main", all(2)) },
		func(c *cat) { // constraints of other kinds
			t := &c.Tables[0]
			t.Constraints = append([]pgsrv.Def{{Name: "aa_pkey", Kind: "p", Def: "PRIMARY KEY (zid)"}, {Name: "zz_uniq", Kind: "u", Def: "UNIQUE (body)"}, {Name: "mm_excl", Kind: "x", Def: "EXCLUDE USING gist (body WITH =)"}}, t.Constraints...)
		},
		func(c *cat) { // internal triggers
			t := &c.Tables[0]
			d := trigger("RI_ConstraintTrigger_c_1", "public", "main", "AFTER", "DELETE", "ri", ddl.Trigger{})
			d.Hidden = true
			t.Triggers = append([]pgsrv.Def{d}, t.Triggers...)
		},
		func(c *cat) { // relations that are not tables
			for _, k := range []string{"v", "m", "f", "c", "t", "I"} {
				c.Tables = append(c.Tables, pgsrv.Table{Schema: "public", Name: "kind_" + k, Owner: "o", Kind: k, Columns: []pgsrv.Column{{Name: "x", Type: "text"}}})
			}
		},
		func(c *cat) { // a partitioned table
			addTable(c, "public", "parts", all(1))
			c.Tables[len(c.Tables)-1].Kind = "p"
		},
		func(c *cat) { // functions
			c.Functions = append(c.Functions, pgsrv.Function{Schema: "public", Name: "f1", Owner: "o", Language: "plpgsql", Definition: "BEGIN\nEND", Returns: sp("trigger"), Comment: sp("function")},
				pgsrv.Function{Schema: "app", Name: "f1", Owner: "o", Language: "sql", Definition: "SELECT 1", Returns: sp("integer")},
				pgsrv.Function{Schema: "app", Name: "f0", Owner: "p", Language: "c", Definition: "f0", Returns: nil},
				pgsrv.Function{Schema: "hidden", Name: "f2", Owner: "o", Language: "sql", Definition: "SELECT 2", Returns: sp("integer")})
		},
		func(c *cat) { // schemas
			c.Schemas = append(c.Schemas, pgsrv.Schema{Name: "pg_mine", Owner: "o"}, pgsrv.Schema{Name: "pgdata", Owner: "o"}, pgsrv.Schema{Name: "Empty one", Owner: "o2", Comment: sp("c")})
		},
		func(c *cat) { // a sequence of a hidden schema, and one whose owner is hidden
			addTable(c, "hidden", "owner", size{kCol: 2})
			c.Sequences = append(c.Sequences, pgsrv.Sequence{Schema: "hidden", Name: "hs", Owner: "o", Start: 1, Inc: 1, Cache: 1, OwnSchema: "hidden", OwnTable: "owner", OwnColumn: "zid"},
				pgsrv.Sequence{Schema: "public", Name: "vs", Owner: "o", Start: 1, Inc: 1, Cache: 1, OwnSchema: "hidden", OwnTable: "owner", OwnColumn: "body"})
		},
		func(c *cat) { // a sequence without owner
			c.Sequences = append(c.Sequences, pgsrv.Sequence{Schema: "public", Name: "free", Owner: "o", Type: "smallint", Start: 1, Inc: 1, Max: 9, Cache: 1, Comment: sp("free")})
		},
		func(c *cat) { c.Legacy = true },
	}
	for x := 0; x < 1<<len(decoys); x++ {
		add(fmt.Sprintf("others %011b", x), func() *cat {
			c := newCat("public", "app", "hidden")
			addTable(c, "public", "main", all(2))
			addTable(c, "app", "other", all(1))
			for i, d := range decoys {
				if x>>i&1 == 1 {
					d(c)
				}
			}
			return c
		})
	}
	// every place takes every awkward value
	places := []struct {
		name string
		set  func(c *cat, v string)
	}{
		{"table name", func(c *cat, v string) {
			c.Tables = append(c.Tables, pgsrv.Table{Schema: "public", Name: "t" + v, Owner: "o", Columns: []pgsrv.Column{{Name: "c", Type: "text"}}})
			c.Tables[len(c.Tables)-1].Constraints = []pgsrv.Def{check("k", "c <> 'a'")}
		}},
		{"schema name", func(c *cat, v string) {
			if strings.ContainsAny(v, `",`) {
				v = "z"
			}
			c.Schemas = append(c.Schemas, pgsrv.Schema{Name: "s" + v, Owner: "o"})
			c.SearchPath += `, "s` + v + `"`
			c.Tables = append(c.Tables, pgsrv.Table{Schema: "s" + v, Name: "t1", Owner: "o", Columns: []pgsrv.Column{{Name: "c", Type: "text"}}})
		}},
		{"schema owner", func(c *cat, v string) { c.Schemas[0].Owner = v }},
		{"schema comment", func(c *cat, v string) { c.Schemas[1].Comment = &v }},
		{"table owner", func(c *cat, v string) { c.Tables[0].Owner = v }},
		{"table comment", func(c *cat, v string) { c.Tables[0].Comment = &v }},
		{"column name", func(c *cat, v string) {
			c.Tables[0].Columns = append(c.Tables[0].Columns, pgsrv.Column{Name: "n" + v, Type: "text"})
		}},
		{"column type", func(c *cat, v string) {
			c.Tables[0].Columns = append(c.Tables[0].Columns, pgsrv.Column{Name: "n", Type: "x" + v})
		}},
		{"column default", func(c *cat, v string) {
			c.Tables[0].Columns = append(c.Tables[0].Columns, pgsrv.Column{Name: "n", Type: "text", Default: &v})
		}},
		{"column comment", func(c *cat, v string) {
			c.Tables[0].Columns = append(c.Tables[0].Columns, pgsrv.Column{Name: "n", Type: "text", Comment: &v})
		}},
		{"check name", func(c *cat, v string) {
			c.Tables[0].Constraints = append(c.Tables[0].Constraints, check("n"+v, "a > 1"))
		}},
		{"foreign key name", func(c *cat, v string) {
			c.Tables[0].Constraints = append(c.Tables[0].Constraints, fk("n"+v, "public", "main", 1, []string{"zid"}, []string{"zid"}, "", ddl.ForeignKey{}))
		}},
		{"function name", func(c *cat, v string) { c.Functions[0].Name = "f" + v }},
		{"function owner", func(c *cat, v string) { c.Functions[0].Owner = v }},
		{"function comment", func(c *cat, v string) { c.Functions[0].Comment = &v }},
		{"function result", func(c *cat, v string) { c.Functions[0].Returns = &v }},
		{"function language", func(c *cat, v string) { c.Functions[0].Language = "l" + v }},
		{"function definition", func(c *cat, v string) { c.Functions[0].Definition = v }},
		{"sequence name", func(c *cat, v string) { c.Sequences[0].Name = "s" + v }},
		{"sequence owner", func(c *cat, v string) { c.Sequences[0].Owner = v }},
		{"sequence comment", func(c *cat, v string) { c.Sequences[0].Comment = &v }},
		{"timezone", func(c *cat, v string) { c.Timezone = v }},
	}
	for _, p := range places {
		for i, v := range awkward {
			for _, legacy := range []bool{false, true} {
				add(fmt.Sprintf("%s = %d %q legacy=%v", p.name, i, v, legacy), func() *cat {
					c := newCat("public", "app")
					c.Functions = []pgsrv.Function{{Schema: "public", Name: "fn", Owner: "o", Language: "sql", Definition: "SELECT 1", Returns: sp("integer")}}
					addTable(c, "public", "main", all(1))
					addTable(c, "app", "other", all(2))
					c.Legacy = legacy
					p.set(c, v)
					return c
				})
			}
		}
	}
	// every field of a sequence takes every extreme value
	for f := 0; f < 5; f++ {
		for i, v := range []int64{0, 1, -1, 2, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64} {
			for _, legacy := range []bool{false, true} {
				for _, cyc := range []bool{false, true} {
					add(fmt.Sprintf("sequence field %d = %d legacy=%v cycle=%v", f, i, legacy, cyc), func() *cat {
						c := newCat("public")
						addTable(c, "public", "main", all(2))
						s := &c.Sequences[0]
						*[]*int64{&s.Start, &s.Min, &s.Max, &s.Inc, &s.Cache}[f] = v
						s.Cycle = cyc
						c.Legacy = legacy
						return c
					})
				}
			}
		}
	}
	for _, ty := range []string{"smallint", "integer", "bigint"} {
		add("sequence type "+ty, func() *cat {
			c := newCat("public")
			addTable(c, "public", "main", all(2))
			c.Sequences[0].Type = ty
			return c
		})
	}
	// every storage parameter takes every value, alone and with another one
	for i, o := range opts {
		for _, v := range o.val {
			add("option "+o.key+"="+v, func() *cat {
				c := newCat("public")
				addTable(c, "public", "main", size{kCol: 1, kOption: 0})
				c.Tables[0].Options = []string{o.key + "=" + v}
				addTable(c, "public", "other", size{kCol: 1, kOption: 2})
				return c
			})
		}
		for j, o2 := range opts {
			if i != j {
				add("options "+o.key+" "+o2.key, func() *cat {
					c := newCat("public")
					addTable(c, "public", "main", size{kCol: 1})
					c.Tables[0].Options = []string{o.key + "=" + o.val[0], o2.key + "=" + o2.val[1]}
					return c
				})
			}
		}
	}
	// search paths
	for _, path := range []string{"public", `"$user", public`, "app, public", `public,app`, "app", `u, app, public`, `""`} {
		add("search path "+path, func() *cat {
			c := newCat("public", "app", "u")
			c.SearchPath = path
			addTable(c, "public", "main", all(1))
			addTable(c, "app", "main", all(1))
			addTable(c, "u", "main", all(1))
			addTable(c, "app", "other", all(1))
			c.Functions = []pgsrv.Function{{Schema: "public", Name: "fn", Owner: "o", Language: "sql", Returns: sp("integer")}, {Schema: "app", Name: "fn", Owner: "p", Language: "sql", Returns: sp("text")}}
			return c
		})
	}
	// sequences without an owning column
	for _, legacy := range []bool{false, true} {
		for _, rest := range []int{0, 1} {
			add(fmt.Sprintf("sequence without a column legacy=%v others=%d", legacy, rest), func() *cat {
				c := newCat("public")
				addTable(c, "public", "main", all(rest))
				c.Sequences = append(c.Sequences, pgsrv.Sequence{Schema: "public", Name: "free", Owner: "o", Start: 1, Min: 1, Max: 9, Inc: 1, Cache: 1})
				c.Legacy = legacy
				return c
			})
		}
	}
	// every option of an inspection
	for x := 0; x < 8; x++ {
		o := &pg.InspectOptions{SortChecks: x&1 > 0, SortColumns: x&2 > 0, SortIndexes: x&4 > 0}
		for n := 0; n < 3; n++ {
			out = append(out, caseC16(fmt.Sprintf("sort %03b objects %d", x, n), func() *cat {
				c := newCat("public", "app")
				addTable(c, "public", "b", all(n))
				addTable(c, "app", "c", all(2))
				addTable(c, "public", "a", all(2-n))
				return c
			}, o))
		}
	}
	// long texts at each place
	lengths := []int{63, 64, 255, 256, 257, 1024, 8192, 70000}
	if thorough {
		lengths = append(lengths, 31, 32, 33, 65, 127, 128, 129, 1023, 1025, 4095, 4096, 4097, 8191, 8193, 65535, 65536, 65537, 1000000)
	}
	for _, p := range places {
		for _, n := range lengths {
			add(fmt.Sprintf("%s of %d bytes", p.name, n), func() *cat {
				c := newCat("public", "app")
				c.Functions = []pgsrv.Function{{Schema: "public", Name: "fn", Owner: "o", Language: "sql", Definition: "SELECT 1", Returns: sp("integer")}}
				addTable(c, "public", "main", all(1))
				addTable(c, "app", "other", all(2))
				p.set(c, strings.Repeat("0123456789abcde\u00e9 ", n/18+1)[:n/18*18]+strings.Repeat("e", n%18))
				return c
			})
		}
	}
	// many objects of one kind
	for _, n := range counts() {
		for k := 0; k <= kinds+2; k++ {
			if k == kOption {
				continue
			}
			for place := 0; place < 2; place++ {
				add(fmt.Sprintf("%d objects, kind %d, place %d", n, k, place), func() *cat {
					c := newCat("public", "app")
					if place == 1 {
						addTable(c, "app", "aa", all(1))
					}
					many(c, k, n)
					if place == 0 {
						addTable(c, "app", "zz", all(1))
					}
					return c
				})
			}
		}
	}
	// objects that agree in everything but their name, schema or arguments
	for _, n := range []int{2, 3} {
		for k := 0; k < kinds+3; k++ {
			for _, at := range []int{0, 1, 2} {
				for _, legacy := range []bool{false, true} {
					if legacy && k != kSeq {
						continue
					}
					add(fmt.Sprintf("%d equal objects of kind %d, place %d, legacy=%v", n, k, at, legacy), func() *cat {
						c := newCat("public", "app")
						c.Legacy = legacy
						if at == 1 {
							addTable(c, "app", "aa", all(2))
						}
						twins(c, k, n)
						if at == 2 {
							addTable(c, "public", "zz", all(2))
						}
						return c
					})
				}
			}
		}
	}
	// larger tables
	for _, n := range []int{3, 13, 40} {
		if n == 40 && !thorough {
			continue
		}
		add(fmt.Sprintf("%d of everything", n), func() *cat {
			c := newCat("public")
			for t := 0; t < n; t++ {
				name := fmt.Sprintf("t%02d", (t*7)%n)
				addTable(c, "public", name, all(2))
				x := &c.Tables[len(c.Tables)-1]
				for i := 0; i < n; i++ {
					m := (i * 5) % n
					x.Columns = append(x.Columns, pgsrv.Column{Name: fmt.Sprintf("c%02d", m), Type: "text"})
					x.Constraints = append(x.Constraints, check(fmt.Sprintf("c%02d", m), fmt.Sprintf("c%02d > %d", m, t)))
					x.Indexes = append(x.Indexes, index(fmt.Sprintf("i%02d_%s", m, name), "public", name, false, false, fmt.Sprintf("c%02d", m), []*ddl.IndexKey{{Column: fmt.Sprintf("c%02d", m)}}))
				}
			}
			return c
		})
	}
	if thorough {
		// all kinds at once, zero to two of each, on two tables
		for x := 0; x < 3*3*3*3*3*3*3; x++ {
			for _, rev := range []bool{false, true} {
				add(fmt.Sprintf("all kinds %d rev=%v", x, rev), func() *cat {
					c := newCat("public", "app")
					var a, b size
					y := x
					for k := range a {
						a[k] = y % 3
						b[k] = 2 - y%3
						y /= 3
					}
					if rev {
						a, b = b, a
					}
					addTable(c, "app", "t", a)
					addTable(c, "public", "s", b)
					return c
				})
			}
		}
	}
	return out
}

func counts() []int {
	if thorough {
		return []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1001, 1025, 2000}
	}
	return []int{17, 65, 130, 260}
}

// many adds a table with n objects of a kind, or n tables, schemas or
// functions; their names count in an order that is not the catalog's.
func many(c *cat, k, n int) {
	name := func(p string, i int) string { return fmt.Sprintf("%s%04d", p, (i*7919+3)%10007) }
	if k < kinds {
		addTable(c, "public", "main", all(1))
	}
	t := func() *pgsrv.Table { return &c.Tables[len(c.Tables)-1] }
	for i := 0; i < n; i++ {
		switch k {
		case kCol:
			t().Columns = append(t().Columns, pgsrv.Column{Name: name("c", i), Type: "text", NotNull: i%3 == 0, Default: sp(fmt.Sprint(i))})
		case kCheck:
			t().Constraints = append(t().Constraints, check(name("k", i), fmt.Sprintf("a > %d", i)))
		case kFK:
			t().Constraints = append(t().Constraints, fk(name("f", i), "public", "main", 1, []string{"zid"}, []string{"zid"}, "", ddl.ForeignKey{}))
		case kIndex:
			t().Indexes = append(t().Indexes, index(name("i", i), "public", "main", false, false, "zid", []*ddl.IndexKey{{Column: "zid"}}))
		case kTrigger:
			t().Triggers = append(t().Triggers, trigger(name("t", i), "public", "main", "AFTER", "DELETE", "fn", ddl.Trigger{Delete: true}))
		case kSeq:
			c.Sequences = append(c.Sequences, pgsrv.Sequence{Schema: "public", Name: name("s", i), Owner: "o", Start: int64(i), Min: 1, Max: 9, Inc: 1, Cache: 1})
		case kinds:
			addTable(c, []string{"public", "app"}[i%2], name("t", i), size{1, i % 2, i / 2 % 2, i % 3 % 2, i % 2, i % 5 % 2})
		case kinds + 1:
			c.Schemas = append(c.Schemas, pgsrv.Schema{Name: name("s", i), Owner: "o"})
		case kinds + 2:
			c.Functions = append(c.Functions, pgsrv.Function{Schema: "public", Name: name("f", i), Owner: "o", Language: "sql", Definition: fmt.Sprint("SELECT ", i), Returns: sp("integer")})
		}
	}
}

// twins adds n objects of a kind that agree in as much as they can.
func twins(c *cat, k, n int) {
	if k < kinds && k != kSeq && k != kOption {
		addTable(c, "public", "main", size{kCol: 2})
	}
	for i := 0; i < n; i++ {
		t := &pgsrv.Table{}
		if len(c.Tables) > 0 {
			t = &c.Tables[len(c.Tables)-1]
		}
		name := fmt.Sprintf("w%d", n-i)
		switch k {
		case kCol:
			t.Columns = append(t.Columns, pgsrv.Column{Name: name, Type: "text", NotNull: true, Default: sp("'x'::text"), Comment: sp("twin")})
		case kCheck:
			t.Constraints = append(t.Constraints, check(name, "zid > 1"))
		case kFK:
			t.Constraints = append(t.Constraints, fk(name, "public", "main", 1, []string{"zid"}, []string{"zid"}, "", ddl.ForeignKey{}))
		case kIndex:
			t.Indexes = append(t.Indexes, index(name, "public", "main", false, true, "zid", []*ddl.IndexKey{{Column: "zid"}}))
		case kTrigger:
			t.Triggers = append(t.Triggers, trigger(name, "public", "main", "AFTER", "DELETE", "fn", ddl.Trigger{Delete: true}))
		case kSeq:
			c.Sequences = append(c.Sequences, pgsrv.Sequence{Schema: "public", Name: name, Owner: "o", Comment: sp("twin"), Start: 1, Min: 1, Max: 9, Inc: 1, Cache: 1})
		case kOption: // tables of other names with parts of the same names
			addTable(c, "public", name, size{})
			x := &c.Tables[len(c.Tables)-1]
			x.Owner, x.Comment, x.Options = "o", sp("twin"), []string{"fillfactor=75"}
			x.Columns = []pgsrv.Column{{Name: "a", Type: "integer"}}
			x.Constraints = []pgsrv.Def{check("k", "a > 1")}
			x.Triggers = []pgsrv.Def{trigger("t", "public", name, "AFTER", "DELETE", "fn", ddl.Trigger{Delete: true})}
		case kinds: // a table, a sequence and an index of the same names in two schemas
			if i < 2 {
				s := []string{"public", "app"}[i]
				addTable(c, s, "same", size{kCol: 2, kCheck: 1, kFK: 1, kIndex: 1, kTrigger: 1, kSeq: 1})
			}
		case kinds + 1:
			c.Schemas = append(c.Schemas, pgsrv.Schema{Name: name, Owner: "o", Comment: sp("twin")})
		case kinds + 2:
			c.Functions = append(c.Functions, pgsrv.Function{Schema: "public", Name: name, Owner: "o", Language: "sql", Definition: "SELECT 1", Returns: sp("integer"), Comment: sp("twin")})
		}
	}
}

func permute(n int, f func(p []int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}
