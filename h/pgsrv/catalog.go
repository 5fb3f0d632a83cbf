//go:build go1.22

package pgsrv

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// Def is an object that the server describes by its definition.
type Def struct {
	Name   string
	Def    string // as the pretty-printing functions show it
	Raw    string // as shown without pretty-printing; Def if empty
	Kind   string // contype; "c" for a check and "f" for a foreign key if empty
	Ref    string // schema.table a foreign key references
	Cols   []int64
	Unique bool
	First  bool // a primary key
	Hidden bool // an internal trigger
	// Qualified: its table is not on the search path, so that the table's
	// name is always shown with its schema; set by the catalog.
	Qualified bool
	Want      any // what a description has to say about it; not used by the server
}

// Column is a column of a table.
type Column struct {
	Name, Type       string
	NotNull, Dropped bool
	Default, Comment *string
}

// Table is a relation.
type Table struct {
	Schema, Name, Owner string
	Kind                string // relkind; "r" if empty
	Comment             *string
	Columns             []Column
	Constraints         []Def
	Indexes, Triggers   []Def
	Options             []string
}

// Sequence is a sequence.
type Sequence struct {
	Schema, Name, Owner, Type            string
	Comment                              *string
	Start, Min, Max, Inc, Cache          int64
	Cycle                                bool
	OwnSchema, OwnTable, OwnColumn, Deps string // Deps: deptype, "a" if empty
}

// Function is a function.
type Function struct {
	Schema, Name, Owner, Language string
	Definition                    string
	Returns                       *string // nil for a procedure
	Comment                       *string
}

// Schema is a schema.
type Schema struct {
	Name, Owner string
	Comment     *string
}

// Catalog is a database.
type Catalog struct {
	Legacy     bool // a server without pg_sequence
	SearchPath string
	Timezone   string
	User       string
	Version    string
	Schemas    []Schema
	Tables     []Table
	Sequences  []Sequence
	Functions  []Function

	// BadQuery records statements the evaluator can't handle.
	BadQuery string

	once     sync.Once
	rels     map[string]*Rel
	seqRels  map[string]*Rel
	users    map[int64]string
	comments map[[2]int64]string
	colcom   map[[2]int64]string
	condef   map[int64]Def
	idxdef   map[int64]Def
	trgdef   map[int64]Def
	exprs    map[string]bool
	funcs    map[int64]Function
	visible  map[int64]bool
	fvisible map[int64]bool
	types    map[int64]string
	mu       sync.Mutex
	queries  map[string]*Query
}

const (
	oidNamespace  = 2615
	oidClass      = 1259
	oidConstraint = 2606
	oidAttrdef    = 2604
	oidProc       = 1255
	oidTrigger    = 2620
	first         = int64(16384)
)

func cols(s string) (out []Col) {
	for _, f := range strings.Fields(s) {
		n, t, _ := strings.Cut(f, ":")
		ty := map[string]Type{"o": TOID, "n": TName, "t": TText, "b": TBool, "c": TChar, "i": TInt4, "l": TInt8, "ta": TTextArr, "ia": TIntArr}[t]
		if ty == 0 {
			panic(f)
		}
		out = append(out, Col{n, ty})
	}
	return
}

func (c *Catalog) build() {
	// OIDs are unique per catalog only, as in a real server: the same number
	// stands for different things in different catalogs.
	r := map[string]*Rel{}
	add := func(name, cs string) *Rel {
		x := &Rel{Cols: cols(cs)}
		r[name] = x
		return x
	}
	ns := add("pg_namespace", "oid:o nspname:n nspowner:o")
	class := add("pg_class", "oid:o relname:n relnamespace:o relowner:o relkind:c reloptions:ta relpersistence:c relispartition:b relhasindex:b reltype:o")
	attr := add("pg_attribute", "attrelid:o attname:n atttypid:o atttypmod:i attnotnull:b attnum:i attisdropped:b atthasdef:b attidentity:c attgenerated:c attlen:i")
	attrdef := add("pg_attrdef", "oid:o adrelid:o adnum:i adbin:t")
	con := add("pg_constraint", "oid:o conname:n conrelid:o confrelid:o contype:c conkey:ia connamespace:o convalidated:b condeferrable:b condeferred:b conindid:o contypid:o conislocal:b")
	idx := add("pg_index", "indexrelid:o indrelid:o indisprimary:b indisunique:b indisvalid:b indisready:b indislive:b")
	trg := add("pg_trigger", "oid:o tgrelid:o tgname:n tgisinternal:b tgfoid:o tgenabled:c tgconstraint:o")
	proc := add("pg_proc", "oid:o proname:n pronamespace:o proowner:o prolang:o prosrc:t prokind:c prorettype:o")
	lang := add("pg_language", "oid:o lanname:n")
	dep := add("pg_depend", "classid:o objid:o objsubid:i refclassid:o refobjid:o refobjsubid:i deptype:c")
	authid := add("pg_roles", "oid:o rolname:n")
	add("pg_authid", "oid:o rolname:n")
	add("pg_user", "usesysid:o usename:n")
	desc := add("pg_description", "objoid:o classoid:o objsubid:i description:t")
	typ := add("pg_type", "oid:o typname:n typtype:c typelem:o typnamespace:o typbasetype:o typrelid:o")
	var seq *Rel
	if !c.Legacy {
		seq = add("pg_sequence", "seqrelid:o seqtypid:o seqstart:l seqincrement:l seqmax:l seqmin:l seqcache:l seqcycle:b")
	}
	c.rels, c.seqRels = r, map[string]*Rel{}
	c.users, c.comments, c.colcom = map[int64]string{}, map[[2]int64]string{}, map[[2]int64]string{}
	c.condef, c.idxdef, c.trgdef, c.exprs = map[int64]Def{}, map[int64]Def{}, map[int64]Def{}, map[string]bool{}
	c.funcs, c.visible, c.fvisible, c.types = map[int64]Function{}, map[int64]bool{}, map[int64]bool{}, map[int64]string{}
	c.queries = map[string]*Query{}

	next := map[string]int64{}
	alloc := func(k string) int64 {
		next[k]++
		return first + next[k] - 1
	}
	userOIDs := map[string]int64{}
	user := func(n string) int64 {
		o, ok := userOIDs[n]
		if !ok {
			o = alloc("role")
			userOIDs[n] = o
			c.users[o] = n
			authid.Rows = append(authid.Rows, []any{o, n})
			r["pg_authid"].Rows = append(r["pg_authid"].Rows, []any{o, n})
			r["pg_user"].Rows = append(r["pg_user"].Rows, []any{o, n})
		}
		return o
	}
	comment := func(oid, classid int64, s *string) {
		if s != nil {
			c.comments[[2]int64{oid, classid}] = *s
			desc.Rows = append(desc.Rows, []any{oid, classid, int64(0), *s})
		}
	}
	nsOIDs := map[string]int64{}
	addNS := func(oid int64, s Schema) {
		nsOIDs[s.Name] = oid
		ns.Rows = append(ns.Rows, []any{oid, s.Name, user(s.Owner)})
		comment(oid, oidNamespace, s.Comment)
	}
	str := func(s string) *string { return &s }
	addNS(11, Schema{"pg_catalog", "postgres", str("system catalog schema")})
	addNS(99, Schema{"pg_toast", "postgres", str("reserved schema for TOAST tables")})
	addNS(13000, Schema{"information_schema", "postgres", nil})
	addNS(13001, Schema{"pg_temp_1", "postgres", nil})
	for _, s := range c.Schemas {
		addNS(alloc("ns"), s)
	}

	typeOIDs := map[string]int64{}
	for _, t := range baseTypes {
		typ.Rows = append(typ.Rows, []any{t.oid, t.name, "b", t.elem, int64(11), int64(0), int64(0)})
		c.types[t.oid] = t.name
	}
	typeOID := func(n string) int64 {
		o, ok := typeOIDs[n]
		if !ok {
			// format_type shows the name that the catalog describes
			o = 50000 + int64(len(typeOIDs))
			typeOIDs[n] = o
			c.types[o] = n
		}
		return o
	}
	langOIDs := map[string]int64{"internal": 12, "c": 13, "sql": 14}
	for _, n := range []string{"internal", "c", "sql"} {
		lang.Rows = append(lang.Rows, []any{langOIDs[n], n})
	}

	path := []string{}
	for _, s := range strings.Split(c.SearchPath, ",") {
		s = strings.Trim(strings.TrimSpace(s), `"`)
		if s == "$user" {
			s = c.User
		}
		path = append(path, s)
	}
	seen := map[string]bool{}
	classOIDs := map[string]int64{}
	var seqOIDs []int64
	addClass := func(oid int64, schema, name, owner, kind string, opts []string) {
		classOIDs[schema+"."+name] = oid
		var o any
		if opts != nil {
			o = opts
		}
		class.Rows = append(class.Rows, []any{oid, name, nsOIDs[schema], user(owner), kind, o, "p", false, false, int64(0)})
	}
	// system relations
	for _, s := range []struct {
		oid          int64
		schema, name string
		kind         string
	}{{oidClass, "pg_catalog", "pg_class", "r"}, {oidConstraint, "pg_catalog", "pg_constraint", "r"}, {oidAttrdef, "pg_catalog", "pg_attrdef", "r"},
		{1249, "pg_catalog", "pg_attribute", "r"}, {oidProc, "pg_catalog", "pg_proc", "r"}, {oidNamespace, "pg_catalog", "pg_namespace", "r"}, {oidTrigger, "pg_catalog", "pg_trigger", "r"},
		{2600, "pg_catalog", "pg_views", "v"}, {13050, "information_schema", "sql_features", "r"}, {13051, "information_schema", "tables", "v"}} {
		addClass(s.oid, s.schema, s.name, "postgres", s.kind, nil)
		c.visible[s.oid] = s.schema == "pg_catalog"
	}
	if !c.Legacy {
		addClass(2224, "pg_catalog", "pg_sequence", "postgres", "r", nil)
		c.visible[2224] = true
	}
	tableOIDs := make([]int64, len(c.Tables))
	for i, t := range c.Tables {
		tableOIDs[i] = alloc("class")
		kind := t.Kind
		if kind == "" {
			kind = "r"
		}
		addClass(tableOIDs[i], t.Schema, t.Name, t.Owner, kind, t.Options)
	}
	for _, s := range c.Sequences {
		o := alloc("class")
		seqOIDs = append(seqOIDs, o)
		addClass(o, s.Schema, s.Name, s.Owner, "S", nil)
	}
	for _, sch := range path {
		for _, row := range class.Rows {
			if row[2] == nsOIDs[sch] && nsOIDs[sch] != 0 && !seen[row[1].(string)] {
				seen[row[1].(string)] = true
				c.visible[row[0].(int64)] = true
			}
		}
	}
	for i, t := range c.Tables {
		oid := tableOIDs[i]
		comment(oid, oidClass, t.Comment)
		if t.Kind == "" || t.Kind == "r" || t.Kind == "p" {
			for j, n := range []string{"ctid", "xmin", "tableoid"} {
				attr.Rows = append(attr.Rows, []any{oid, n, typeOID("xid"), int64(-1), true, -int64(j) - 1, false, false, "", "", int64(4)})
			}
		}
		for j, col := range t.Columns {
			num := int64(j + 1)
			name, tid := col.Name, typeOID(col.Type)
			if col.Dropped {
				name, tid = fmt.Sprintf("........pg.dropped.%d........", num), 0
			}
			attr.Rows = append(attr.Rows, []any{oid, name, tid, int64(-1), col.NotNull, num, col.Dropped, col.Default != nil, "", "", int64(4)})
			if col.Default != nil {
				bin := fmt.Sprintf("%d/%d/%s", oid, num, *col.Default)
				c.exprs[bin] = true
				d := alloc("attrdef")
				attrdef.Rows = append(attrdef.Rows, []any{d, oid, num, bin})
				dep.Rows = append(dep.Rows, []any{int64(oidAttrdef), d, int64(0), int64(oidClass), oid, num, "a"})
			}
			if col.Comment != nil {
				c.colcom[[2]int64{oid, num}] = *col.Comment
				desc.Rows = append(desc.Rows, []any{oid, int64(oidClass), num, *col.Comment})
			}
		}
		for _, d := range t.Constraints {
			o := alloc("con")
			kind, conf := d.Kind, int64(0)
			if d.Ref != "" {
				conf = classOIDs[d.Ref]
				if kind == "" {
					kind = "f"
				}
				if conf == 0 {
					panic("no table " + d.Ref)
				}
			}
			if kind == "" {
				kind = "c"
			}
			keys := d.Cols
			if keys == nil {
				keys = []int64{}
			}
			con.Rows = append(con.Rows, []any{o, d.Name, oid, conf, kind, keys, nsOIDs[t.Schema], true, false, false, int64(0), int64(0), true})
			c.condef[o] = d
		}
		for _, d := range t.Indexes {
			o := alloc("class")
			addClass(o, t.Schema, d.Name, t.Owner, "i", nil)
			idx.Rows = append(idx.Rows, []any{o, oid, d.First, d.Unique, true, true, true})
			d.Qualified = !c.visible[oid]
			c.idxdef[o] = d
		}
		for _, d := range t.Triggers {
			o := alloc("trg")
			trg.Rows = append(trg.Rows, []any{o, oid, d.Name, d.Hidden, int64(0), "O", int64(0)})
			d.Qualified = !c.visible[oid]
			c.trgdef[o] = d
		}
	}
	for i, s := range c.Sequences {
		oid := seqOIDs[i]
		comment(oid, oidClass, s.Comment)
		ty := s.Type
		if ty == "" {
			ty = "bigint"
		}
		if seq != nil {
			seq.Rows = append(seq.Rows, []any{oid, typeOID(ty), s.Start, s.Inc, s.Max, s.Min, s.Cache, s.Cycle})
		}
		sr := &Rel{Cols: cols("sequence_name:n last_value:l start_value:l increment_by:l max_value:l min_value:l cache_value:l log_cnt:l is_cycled:b is_called:b"),
			Rows: [][]any{{s.Name, s.Start, s.Start, s.Inc, s.Max, s.Min, s.Cache, int64(0), s.Cycle, false}}, Full: true}
		if !c.Legacy {
			sr = &Rel{Cols: cols("last_value:l log_cnt:l is_called:b"), Rows: [][]any{{s.Start, int64(0), false}}, Full: true}
		}
		c.seqRels[s.Schema+"."+s.Name] = sr
		dep.Rows = append(dep.Rows, []any{int64(oidClass), oid, int64(0), int64(oidNamespace), nsOIDs[s.Schema], int64(0), "n"})
		if s.OwnTable != "" {
			d := s.Deps
			if d == "" {
				d = "a"
			}
			num := int64(0)
			for j := range c.Tables {
				if t := &c.Tables[j]; t.Schema == s.OwnSchema && t.Name == s.OwnTable {
					for k, col := range t.Columns {
						if col.Name == s.OwnColumn {
							num = int64(k + 1)
						}
					}
				}
			}
			if num == 0 {
				panic("no column " + s.OwnColumn)
			}
			dep.Rows = append(dep.Rows, []any{int64(oidClass), oid, int64(0), int64(oidClass), classOIDs[s.OwnSchema+"."+s.OwnTable], num, d})
		}
	}
	fseen := map[string]bool{}
	addFunc := func(oid int64, f Function) {
		l, ok := langOIDs[f.Language]
		if !ok {
			l = alloc("lang")
			langOIDs[f.Language] = l
			lang.Rows = append(lang.Rows, []any{l, f.Language})
		}
		kind := "f"
		if f.Returns == nil {
			kind = "p"
		}
		proc.Rows = append(proc.Rows, []any{oid, f.Name, nsOIDs[f.Schema], user(f.Owner), l, f.Definition, kind, int64(0)})
		c.funcs[oid] = f
		comment(oid, oidProc, f.Comment)
	}
	addFunc(861, Function{"pg_catalog", "current_database", "postgres", "internal", "current_database", str("name"), str("name of the current database")})
	addFunc(13100, Function{"information_schema", "_pg_truetypid", "postgres", "sql", "SELECT 1", str("oid"), nil})
	for _, f := range c.Functions {
		addFunc(alloc("proc"), f)
	}
	c.fvisible[861] = true
	for _, sch := range path {
		here := map[string]bool{}
		for _, row := range proc.Rows {
			if row[2] == nsOIDs[sch] && nsOIDs[sch] != 0 && !fseen[row[1].(string)] {
				here[row[1].(string)] = true
				c.fvisible[row[0].(int64)] = true
			}
		}
		for n := range here {
			fseen[n] = true
		}
	}
}

// Rel finds a relation.
func (c *Catalog) Rel(schema, name string) *Rel {
	c.once.Do(c.build)
	if schema == "" || schema == "pg_catalog" {
		if r := c.rels[name]; r != nil {
			return r
		}
	}
	if schema == "" {
		for _, s := range c.Sequences {
			if s.Name == name {
				return c.seqRels[s.Schema+"."+s.Name]
			}
		}
	}
	return c.seqRels[schema+"."+name]
}

// Regclass resolves a relation name.
func (c *Catalog) Regclass(name string) any {
	c.once.Do(c.build)
	schema, rel, ok := strings.Cut(strings.ReplaceAll(name, `"`, ""), ".")
	if !ok {
		rel, schema = schema, ""
	}
	nsOID := int64(-1)
	for _, r := range c.rels["pg_namespace"].Rows {
		if r[1] == schema {
			nsOID = r[0].(int64)
		}
	}
	for _, r := range c.rels["pg_class"].Rows {
		if r[1] == rel && (schema == "" && c.visible[r[0].(int64)] || r[2] == nsOID) {
			return r[0]
		}
	}
	sqlerr("42P01", "relation %q does not exist", name)
	return nil
}

// Show is a configuration parameter.
func (c *Catalog) Show(name string) (string, bool) {
	switch name {
	case "search_path":
		return c.SearchPath, true
	case "timezone":
		return c.Timezone, true
	case "transaction_read_only", "default_transaction_read_only":
		return "off", true
	case "server_version":
		return "9.6.15", true
	}
	return "", false
}

var funcTypes = map[string]Type{
	"pg_get_userbyid": TName, "obj_description": TText, "col_description": TText, "pg_get_constraintdef": TText, "pg_get_expr": TText,
	"format_type": TText, "pg_get_indexdef": TText, "pg_get_triggerdef": TText, "pg_get_function_result": TText,
	"pg_function_is_visible": TBool, "pg_table_is_visible": TBool, "version": TText, "current_setting": TText, "lower": TText, "upper": TText,
	"current_database": TName, "current_schema": TName, "starts_with": TBool, "left": TText, "strpos": TInt4, "split_part": TText,
	"array_to_string": TText, "concat": TText, "cardinality": TInt4, "array_length": TInt4,
}

// FuncType is the result type of a function.
func (c *Catalog) FuncType(name string) (Type, bool) {
	t, ok := funcTypes[name]
	return t, ok
}

func i64(x any) (int64, bool) { n, ok := x.(int64); return n, ok }

// Func evaluates a function.
func (c *Catalog) Func(name string, args []any) any {
	c.once.Do(c.build)
	need := func(lo, hi int) {
		if len(args) < lo || len(args) > hi {
			unsupported("%s with %d arguments", name, len(args))
		}
	}
	def := func(m map[int64]Def, pretty bool) any {
		o, ok := i64(args[0])
		if !ok {
			return nil
		}
		d, ok := m[o]
		if !ok {
			return nil
		}
		if (!pretty || d.Qualified) && d.Raw != "" {
			return d.Raw
		}
		return d.Def
	}
	switch name {
	case "pg_get_userbyid":
		need(1, 1)
		o, ok := i64(args[0])
		if !ok {
			return nil
		}
		if u, ok := c.users[o]; ok {
			return u
		}
		return fmt.Sprintf("unknown (OID=%d)", o)
	case "obj_description":
		need(1, 2)
		o, ok := i64(args[0])
		if !ok {
			return nil
		}
		if len(args) == 1 {
			// deprecated: any object with that OID
			for _, k := range []int64{oidProc, oidNamespace, oidClass} {
				if s, ok := c.comments[[2]int64{o, k}]; ok {
					return s
				}
			}
			return nil
		}
		cl, ok := map[any]int64{"pg_class": oidClass, "pg_namespace": oidNamespace, "pg_proc": oidProc, "pg_constraint": oidConstraint, "pg_trigger": oidTrigger}[args[1]]
		if !ok {
			return nil
		}
		if s, ok := c.comments[[2]int64{o, cl}]; ok {
			return s
		}
		return nil
	case "col_description":
		need(2, 2)
		o, ok1 := i64(args[0])
		n, ok2 := i64(args[1])
		if s, ok := c.colcom[[2]int64{o, n}]; ok && ok1 && ok2 {
			return s
		}
		return nil
	case "pg_get_constraintdef":
		need(1, 2)
		return def(c.condef, len(args) == 2 && args[1] == true)
	case "pg_get_indexdef":
		need(1, 3)
		if len(args) == 3 {
			if n, _ := i64(args[1]); n != 0 {
				unsupported("pg_get_indexdef of one key")
			}
		}
		return def(c.idxdef, len(args) == 3 && args[2] == true)
	case "pg_get_triggerdef":
		need(1, 2)
		return def(c.trgdef, len(args) == 2 && args[1] == true)
	case "pg_get_expr":
		need(2, 3)
		s, ok := args[0].(string)
		o, ok2 := i64(args[1])
		if !ok || !ok2 {
			return nil
		}
		parts := strings.SplitN(s, "/", 3)
		if len(parts) != 3 || parts[0] != fmt.Sprint(o) {
			sqlerr("XX000", "bogus varno")
		}
		return parts[2]
	case "format_type":
		need(2, 2)
		o, ok := i64(args[0])
		if !ok {
			return nil
		}
		if o == 0 {
			return "-"
		}
		if n, ok := c.types[o]; ok {
			if args[1] == nil {
				// without the modifier, and without its notation
				if i := strings.IndexByte(n, '('); i >= 0 {
					j := strings.IndexByte(n, ')')
					n = n[:i] + n[j+1:]
				}
			}
			return n
		}
		return "???"
	case "pg_get_function_result":
		need(1, 1)
		o, _ := i64(args[0])
		if f, ok := c.funcs[o]; ok && f.Returns != nil {
			return *f.Returns
		}
		return nil
	case "pg_function_is_visible":
		need(1, 1)
		o, _ := i64(args[0])
		return c.fvisible[o]
	case "pg_table_is_visible":
		need(1, 1)
		o, _ := i64(args[0])
		return c.visible[o]
	case "version":
		return c.Version
	case "current_setting":
		s, _ := c.Show(strings.ToLower(args[0].(string)))
		return s
	case "starts_with", "left", "strpos", "split_part", "array_to_string":
		for _, a := range args {
			if a == nil {
				return nil
			}
		}
		switch name {
		case "starts_with":
			need(2, 2)
			return strings.HasPrefix(str(args[0]), str(args[1]))
		case "left":
			need(2, 2)
			r, n := []rune(str(args[0])), args[1].(int64)
			if n < 0 {
				n = max(int64(len(r))+n, 0)
			}
			return string(r[:min(int64(len(r)), n)])
		case "strpos":
			need(2, 2)
			i := strings.Index(str(args[0]), str(args[1]))
			if i > 0 {
				i = len([]rune(str(args[0])[:i]))
			}
			return int64(i + 1)
		case "split_part":
			need(3, 3)
			l := strings.Split(str(args[0]), str(args[1]))
			n := args[2].(int64)
			if n < 0 {
				n += int64(len(l)) + 1
			}
			if n < 1 || n > int64(len(l)) {
				return ""
			}
			return l[n-1]
		}
		need(2, 2)
		var l []string
		for _, x := range elements(args[0]) {
			l = append(l, str(x))
		}
		return strings.Join(l, str(args[1]))
	case "concat":
		out := ""
		for _, a := range args {
			if a != nil {
				out += str(a)
			}
		}
		return out
	case "cardinality":
		need(1, 1)
		if args[0] == nil {
			return nil
		}
		return int64(len(elements(args[0])))
	case "array_length":
		need(2, 2)
		if n := len(elements(args[0])); n > 0 {
			return int64(n)
		}
		return nil
	case "lower":
		return strings.ToLower(args[0].(string))
	case "upper":
		return strings.ToUpper(args[0].(string))
	case "current_database":
		return "pgutil"
	case "current_schema":
		return "public"
	}
	unsupported("function %s", name)
	return nil
}

// Compile compiles a statement, once.
func (c *Catalog) Compile(sql string) (*Query, error) {
	c.once.Do(c.build)
	if strings.HasPrefix(sql, "select t.oid") || strings.HasPrefix(sql, "select oid, typname") {
		return compileTypes(sql)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if q := c.queries[sql]; q != nil {
		return q, nil
	}
	q, err := Compile(c, sql)
	if err == nil {
		c.queries[sql] = q
	} else if e, ok := err.(SQLError); ok && e.Unsupported {
		c.BadQuery = e.Msg + " in " + sql
	}
	return q, err
}

// The client's own questions about types have the same answers in every database.
var (
	typesMu sync.Mutex
	typesDB = &Catalog{}
	typesQ  = map[string]*Query{}
)

func compileTypes(sql string) (*Query, error) {
	typesMu.Lock()
	defer typesMu.Unlock()
	if q := typesQ[sql]; q != nil {
		return q, nil
	}
	q, err := Compile(typesDB, sql)
	if err != nil {
		return nil, err
	}
	rows, err := q.Run(nil)
	if err != nil {
		return nil, err
	}
	q.run = func(*env) [][]any { return rows }
	typesQ[sql] = q
	return q, nil
}

type baseType struct {
	oid  int64
	name string
	elem int64
}

var baseTypes = []baseType{
	{16, "bool", 0}, {17, "bytea", 0}, {18, "char", 0}, {19, "name", 18}, {20, "int8", 0}, {21, "int2", 0}, {23, "int4", 0}, {25, "text", 0},
	{26, "oid", 0}, {27, "tid", 0}, {28, "xid", 0}, {29, "cid", 0}, {114, "json", 0}, {600, "point", 701}, {700, "float4", 0}, {701, "float8", 0},
	{705, "unknown", 0}, {829, "macaddr", 0}, {869, "inet", 0}, {1000, "_bool", 16}, {1005, "_int2", 21}, {1007, "_int4", 23}, {1009, "_text", 25},
	{1015, "_varchar", 1043}, {1016, "_int8", 20}, {1033, "aclitem", 0}, {1042, "bpchar", 0}, {1043, "varchar", 0}, {1082, "date", 0},
	{1114, "timestamp", 0}, {1184, "timestamptz", 0}, {1186, "interval", 0}, {1700, "numeric", 0}, {2950, "uuid", 0}, {3802, "jsonb", 0},
}

// VisibleTables lists, in order of schema and name, the tables that an
// inspection has to show, by index.
func (c *Catalog) VisibleTables() (out []int) {
	c.once.Do(c.build)
	for i := range c.Tables {
		k := c.Tables[i].Kind
		if (k == "" || k == "r" || k == "p") && c.visible[c.oidOf(c.Tables[i].Schema, c.Tables[i].Name)] {
			out = append(out, i)
		}
	}
	sort.Slice(out, func(a, b int) bool {
		x, y := &c.Tables[out[a]], &c.Tables[out[b]]
		return x.Schema < y.Schema || x.Schema == y.Schema && x.Name < y.Name
	})
	return
}

// Visible reports whether a relation is visible without its schema.
func (c *Catalog) Visible(schema, name string) bool {
	c.once.Do(c.build)
	return c.visible[c.oidOf(schema, name)]
}

// FuncVisible reports whether the i-th function is visible.
func (c *Catalog) FuncVisible(i int) bool {
	c.once.Do(c.build)
	return c.fvisible[first+int64(i)]
}

func (c *Catalog) oidOf(schema, name string) int64 {
	nsOID := int64(-1)
	for _, r := range c.rels["pg_namespace"].Rows {
		if r[1] == schema {
			nsOID = r[0].(int64)
		}
	}
	for _, r := range c.rels["pg_class"].Rows {
		if r[1] == name && r[2] == nsOID {
			return r[0].(int64)
		}
	}
	return -1
}
