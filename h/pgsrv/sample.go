//go:build go1.22

package pgsrv

// Sample is a small database with an object of every kind.
func Sample() *Catalog {
	p := func(s string) *string { return &s }
	return &Catalog{
		SearchPath: `"$user", public`, Timezone: "UTC", User: "u", Version: "PostgreSQL 9.6.15 on none",
		Schemas: []Schema{{"public", "u", p("standard schema")}},
		Tables: []Table{
			{Schema: "public", Name: "b", Owner: "u", Columns: []Column{{Name: "z", Type: "integer", NotNull: true}, {Name: "a", Type: "text", Default: p("'x'::text")}},
				Constraints: []Def{{Name: "positive", Def: "CHECK ((z > 0))", Cols: []int64{1}}},
				Indexes:     []Def{{Name: "b_pkey", Def: "CREATE UNIQUE INDEX b_pkey ON b USING btree (z)", Unique: true, First: true}},
				Options:     []string{"fillfactor=70"}},
			{Schema: "public", Name: "a", Owner: "u", Comment: p("first"), Columns: []Column{{Name: "c", Type: "integer"}}},
		},
		Sequences: []Sequence{{Schema: "public", Name: "s", Owner: "u", Type: "bigint", Start: 1, Min: 1, Max: 9223372036854775807, Inc: 1, Cache: 1}},
	}
}
