//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- C15: a fault at every message of an inspection

func faultCatalogs() map[string]func() *cat {
	fn := func(c *cat) *cat {
		c.Functions = []pgsrv.Function{{Schema: "public", Name: "f1", Owner: "o", Language: "sql", Definition: "SELECT 1", Returns: sp("integer")},
			{Schema: "public", Name: "f2", Owner: "o", Language: "sql", Definition: "SELECT 2", Returns: sp("integer"), Comment: sp("c")}}
		return c
	}
	out := map[string]func() *cat{
		"empty": func() *cat { return newCat() },
		"one": func() *cat {
			c := fn(newCat("public"))
			addTable(c, "public", "t", all(1))
			return c
		},
		"two": func() *cat {
			c := fn(newCat("public", "app"))
			addTable(c, "public", "t", all(2))
			addTable(c, "app", "u", all(2))
			return c
		},
		"legacy": func() *cat {
			c := fn(newCat("public"))
			addTable(c, "public", "t", all(2))
			c.Legacy = true
			return c
		},
	}
	if thorough {
		out["three"] = func() *cat {
			c := fn(newCat("public", "app", "u"))
			addTable(c, "public", "t", all(2))
			addTable(c, "app", "t", all(1))
			addTable(c, "u", "x", all(2))
			addTable(c, "public", "bare", all(0))
			return c
		}
		out["legacy two"] = func() *cat {
			c := fn(newCat("public", "app"))
			addTable(c, "public", "t", all(2))
			addTable(c, "app", "u", all(2))
			c.Legacy = true
			return c
		}
	}
	return out
}

func casesC15() (out []kase) {
	cs := faultCatalogs()
	for _, name := range []string{"empty", "one", "two", "legacy", "three", "legacy two"} {
		mk := cs[name]
		if mk == nil {
			continue
		}
		var r result
		c := mk()
		db, log, err := inspect(c, nil, &r, pgsrv.Plan{})
		if err != nil || r.Broken != "" {
			// without faults the inspection fails: nothing to inject into
			out = append(out, kase{"catalog " + name, func(_ string, q *result) {
				q.Broken = r.Broken
				q.add("no fault "+name, "catalog %s: without any fault, the inspection fails: %v", name, err)
			}})
			continue
		}
		if d := diff(db, want(c), false); d != "" {
			out = append(out, kase{"catalog " + name, func(_ string, q *result) {
				q.add("no fault "+name, "catalog %s: without any fault, the description differs: %s", name, d)
			}})
		}
		setup := connectOnly(mk())
		for n := range log.Sent {
			out = append(out, kase{fmt.Sprintf("catalog %s message %d", name, n+1), func(id string, q *result) {
				faultAt(name, mk, n+1, log.Sent[n], log.Lens[n], setup <= n, q)
			}})
		}
	}
	out = append(out, longAnswers()...)
	for _, s := range rotten(cs["two"]) {
		out = append(out, kase{"catalog two, " + s.what, func(_ string, q *result) {
			c := cs["two"]()
			s.apply(&c.Tables[s.table])
			q.count("distinct_nontrivial", 1)
			db, _, err := inspect(c, nil, q, pgsrv.Plan{})
			if err == nil {
				q.add("rotten "+s.what, "catalog two, %s: no error; the description is %s", s.what, diff(db, want(cs["two"]()), false))
			} else {
				q.count("reported", 1)
			}
		}})
	}
	return
}

// longAnswers has a fault at every row of a long answer, or at those around
// the powers of two of a longer one.
func longAnswers() (out []kase) {
	sizes := []int{40, 300}
	if thorough {
		sizes = append(sizes, 1100)
	}
	for _, n := range sizes {
		for k := 0; k <= kinds+2; k++ {
			if k == kOption || k == kinds && n > 40 && !thorough {
				continue
			}
			name := fmt.Sprintf("%d of kind %d", n, k)
			mk := func() *cat {
				c := newCat("public", "app")
				many(c, k, n)
				return c
			}
			var r result
			_, log, err := inspect(mk(), nil, &r, pgsrv.Plan{})
			if err != nil || r.Broken != "" {
				out = append(out, kase{"catalog " + name, func(_ string, q *result) {
					q.Broken = r.Broken
					q.add("no fault "+name, "catalog %s: without any fault, the inspection fails: %v", name, err)
				}})
				continue
			}
			from, to := 0, 0
			for i := 0; i < len(log.Sent); i++ {
				j := i
				for j < len(log.Sent) && log.Sent[j] == "D" {
					j++
				}
				if j-i > to-from {
					from, to = i, j
				}
			}
			for m := from; m <= to && m < len(log.Sent); m++ {
				i, near := m-from+1, m >= to-2
				for b := 1; b <= n; b *= 2 {
					near = near || i >= b-1 && i <= b+1
				}
				if n > 40 && !near {
					continue
				}
				out = append(out, kase{fmt.Sprintf("catalog %s message %d", name, m+1), func(id string, q *result) {
					faultsAt([]pgsrv.Plan{{FaultKind: "close"}, {FaultKind: "error", FaultCode: "57014"}}, name, mk, m+1, log.Sent[m], log.Lens[m], true, q)
				}})
			}
		}
	}
	return
}

// connectOnly counts the messages that the server sends for a connection.
func connectOnly(c *cat) int {
	s := pgsrv.Serve(listen(), func(int) pgsrv.Plan { return pgsrv.Plan{DB: c} })
	defer s.Close()
	guarded(func() {
		if conn, err := pg.New(options(s)); err == nil {
			conn.Close()
		}
	})
	ls := s.Logs()
	if len(ls) == 0 {
		return 0
	}
	ls[0].Closed(10 * time.Second)
	return len(ls[0].Sent)
}

// faultAt replaces one message by every kind of fault. started tells whether
// the session was established by then.
func faultAt(name string, mk func() *cat, n int, kind string, length int, started bool, r *result) {
	plans := []pgsrv.Plan{{FaultKind: "close"}, {FaultKind: "fatal"}, {FaultKind: "garbage"}, {FaultKind: "reset"}}
	for _, code := range []string{"57014", "42501", "42P01", "53200", "40001", "0A000"} {
		plans = append(plans, pgsrv.Plan{FaultKind: "error", FaultCode: code})
	}
	faultsAt(plans, name, mk, n, kind, length, started, r)
}

func faultsAt(plans []pgsrv.Plan, name string, mk func() *cat, n int, kind string, length int, started bool, r *result) {
	few := len(plans) < 4
	for c := 1; c < length; c++ {
		if few && !thorough && c != length/2 {
			continue
		}
		if thorough || c == 1 || c == 4 || c == 5 || c == 6 || c == length/2 || c == length-1 {
			plans = append(plans, pgsrv.Plan{FaultKind: "cut", FaultCut: c})
		}
	}
	if kind == "D" && !few {
		for i := 0; i < 12; i++ {
			plans = append(plans, pgsrv.Plan{FaultKind: "null", FaultCut: i})
		}
	}
	for _, p := range plans {
		p.FaultAt = n
		c := mk()
		db, log, err := inspect(c, nil, r, p)
		what := fmt.Sprintf("%s%s", p.FaultKind, p.FaultCode)
		if p.FaultKind == "null" {
			// a value can be missing in a catalog, so that only panics and
			// hangs count
			r.count("missing_values", 1)
			continue
		}
		if p.FaultCut > 0 {
			what = fmt.Sprintf("cut after %d of %d bytes", p.FaultCut, length)
		}
		where := fmt.Sprintf("catalog %s, message %d (%s) replaced by %s", name, n, kind, what)
		if log == nil || !log.Faulted {
			r.add("unreached "+where, "%s: the inspection ends without reading that far", where)
			continue
		}
		r.count("distinct_nontrivial", 1)
		if err != nil {
			r.count("reported", 1)
			continue
		}
		d := diff(db, want(c), false)
		switch {
		case d != "":
			r.add(where, "%s: no error, and the description is not complete:\n%s", where, d)
		case started && kind != "Z":
			r.add(where, "%s: no error, although the answer to a query did not end (%s)", where, lastQuery(log))
		default:
			r.count("complete_all_the_same", 1)
		}
	}
}

func lastQuery(l *pgsrv.Log) string {
	if len(l.Queries) == 0 {
		return "no query"
	}
	return strings.Join(strings.Fields(l.Queries[len(l.Queries)-1].SQL), " ")
}

// ---- C17: sorting

// serverOrder lists the names in the order in which the server's answers
// first mention them.
func serverOrder(l *pgsrv.Log, names map[string]bool) (out []string) {
	seen := map[string]bool{}
	for _, q := range l.Queries {
		for _, row := range q.Rows {
			for _, v := range row {
				if s, ok := v.(string); ok && names[s] && !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	return
}

func caseC17(name string, mk func() *cat) kase {
	return kase{name, func(_ string, r *result) {
		for x := 0; x < 8; x++ {
			o := &pg.InspectOptions{SortChecks: x&1 > 0, SortColumns: x&2 > 0, SortIndexes: x&4 > 0}
			if x == 0 && len(name)%2 == 0 {
				o = nil // the same as no option
			}
			c := mk()
			db, log, err := inspect(c, o, r, pgsrv.Plan{})
			at := fmt.Sprintf("%s options %03b", name, x)
			r.count("states", 1)
			if err != nil {
				r.add(at+": error", "%s: the inspection fails: %v", at, err)
				continue
			}
			w := want(c)
			if d := diff(db, w, true); d != "" {
				r.add(at+": "+d, "%s: the description differs:\n%s", at, d)
				continue
			}
			bad := func(what string, got []string, rule string) {
				r.add(fmt.Sprintf("%s: %s %s", at, what, strings.Join(got, " | ")), "%s: %s not %s:\n  %s", at, what, rule, strings.Join(got, "\n  "))
			}
			physical := map[string][]string{}
			for _, t := range w.Tables {
				for _, col := range t.Columns {
					physical[t.Schema+"."+t.Name] = append(physical[t.Schema+"."+t.Name], col.Name)
				}
			}
			for _, t := range db.Tables {
				var cols, names, exprs []string
				for _, col := range t.Columns {
					cols = append(cols, col.Name)
				}
				for _, k := range t.Checks {
					names = append(names, k.Name)
					exprs = append(exprs, k.Expression)
				}
				on := " of " + t.Schema + "." + t.Name
				if x&2 > 0 {
					if !ordered(cols) {
						bad("columns"+on, cols, "sorted by name")
					}
				} else if strings.Join(cols, "\x00") != strings.Join(physical[t.Schema+"."+t.Name], "\x00") {
					bad("columns"+on, cols, "in physical order")
				}
				if x&1 > 0 {
					if !ordered(exprs) {
						bad("checks"+on, exprs, "sorted by expression")
					}
				} else if !ordered(names) {
					bad("checks"+on, names, "in order of their names")
				}
				if len(cols) > 1 || len(names) > 1 {
					r.count("distinct_nontrivial", 1)
				}
			}
			names := map[string]bool{}
			var got, keys []string
			for _, i := range db.Indexes {
				names[i.Name] = true
				got = append(got, i.Name)
				keys = append(keys, i.Schema+"\x00"+i.Table+"\x00"+i.Name)
			}
			if x&4 > 0 {
				if !ordered(keys) {
					for i := range keys {
						keys[i] = strings.ReplaceAll(keys[i], "\x00", ".")
					}
					r.add(fmt.Sprintf("%s: order of indexes %s", name, strings.Join(keys, " ")), "%s: indexes not sorted by schema, table and name:\n  %s", at, strings.Join(keys, "\n  "))
				}
			} else if s := serverOrder(log, names); strings.Join(s, "\x00") != strings.Join(got, "\x00") {
				bad("indexes", got, "in the server's order "+strings.Join(s, ", "))
			}
		}
	}}
}

func ordered(s []string) bool {
	for i := 1; i < len(s); i++ {
		if s[i] < s[i-1] {
			return false
		}
	}
	return true
}

// simpleNames says whether the names need no quotes: others the parsers of
// definitions don't support.
func simpleNames(names []string, p []int) bool {
	for _, i := range p {
		for j, c := range []byte("i" + names[i]) {
			if !('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || j > 0 && (c == '_' || '0' <= c && c <= '9')) {
				return false
			}
		}
	}
	return true
}

func casesC17() (out []kase) {
	add := func(name string, mk func() *cat) { out = append(out, caseC17(name, mk)) }
	two := func() *cat {
		c := newCat("public", "app")
		c.Tables = []pgsrv.Table{
			{Schema: "public", Name: "m", Owner: "o", Columns: []pgsrv.Column{{Name: "z", Type: "text"}, {Name: "a", Type: "integer"}}},
			{Schema: "app", Name: "n", Owner: "o", Columns: []pgsrv.Column{{Name: "y", Type: "text"}, {Name: "b", Type: "integer"}}},
		}
		return c
	}
	maxPerm := 4
	if thorough {
		maxPerm = 6
	}
	// every order of names and expressions that another order than that of
	// their bytes (of numbers, words, letters without case, without marks or
	// blanks, backwards, by length) takes for equal or turns round
	for pool, names := range [][]string{
		{"a", "ab", "B", "b", "_x", "a b"},
		{"c9", "c10", "c010", "c1", "c", "c9a"},
		{"\u00e9a", "eb", "z", "E", "e\u0301", "\u00c9"},
		{"a-b", "ab", "a_b", "aB", "a.b", "a b"},
		{"zz", "aaaa", "bbb", "y", "ZZZZ", "_"},
		{"1", "-1", "10", "+1", "01", "1.0"},
		{"\"", "'", "(", "\\", "~", "%"},
	} {
		exprs, cols := names, names
		if pool == 0 {
			exprs = []string{"a > 1", "a > 10", "B < 0", "a", "b < 0", "ab"}
		}
		most := maxPerm
		if pool > 0 && most > 4 {
			most = 5
		}
		for n := 2; n <= most; n++ {
			permute(len(names), func(p []int) {
				for i := n + 1; i < len(p); i++ {
					if p[i] < p[i-1] {
						return // one order of the rest is enough
					}
				}
				if pool == 0 && len(p) > n {
					for _, x := range p[:n] {
						if x >= n {
							return
						}
					}
				}
				p = append([]int{}, p[:n]...)
				add(fmt.Sprintf("checks %d %v", pool, p), func() *cat {
					c := two()
					for i, e := range p {
						c.Tables[0].Constraints = append(c.Tables[0].Constraints, check(fmt.Sprintf("k%d", i), exprs[e]))
						c.Tables[1].Constraints = append(c.Tables[1].Constraints, check(fmt.Sprintf("k%d", n-i), exprs[e]))
					}
					return c
				})
				add(fmt.Sprintf("columns %d %v", pool, p), func() *cat {
					c := two()
					c.Tables[0].Columns, c.Tables[1].Columns = nil, nil
					for i := range p {
						c.Tables[0].Columns = append(c.Tables[0].Columns, pgsrv.Column{Name: cols[p[i]], Type: "text", NotNull: i%2 == 0})
						c.Tables[1].Columns = append(c.Tables[1].Columns, pgsrv.Column{Name: cols[p[n-1-i]], Type: "integer", Default: sp(fmt.Sprint(i))})
					}
					return c
				})
				if n < 4 && pool > 0 && simpleNames(names, p) {
					add(fmt.Sprintf("indexes %d %v", pool, p), func() *cat {
						c := two()
						for i, e := range p {
							t := &c.Tables[i%2]
							t.Indexes = append(t.Indexes, index("i"+names[e], t.Schema, t.Name, false, true, "a", []*ddl.IndexKey{{Column: "a"}}))
						}
						return c
					})
				}
			})
		}
	}
	exprs := []string{"a > 1", "a > 10", "B < 0"}
	// equal expressions
	for x := 0; x < 27; x++ {
		add(fmt.Sprintf("equal checks %d", x), func() *cat {
			c := two()
			for i, e := range []int{x / 9, x / 3 % 3, x % 3} {
				c.Tables[0].Constraints = append(c.Tables[0].Constraints, check(fmt.Sprintf("k%d", i), exprs[e]))
			}
			return c
		})
	}
	// more than a library sorts by insertion
	for _, n := range []int{12, 13, 20, 33} {
		for _, step := range []int{1, 2, 5, 7, -1} {
			if n%step == 0 && step > 1 {
				continue
			}
			add(fmt.Sprintf("%d of each, step %d", n, step), func() *cat {
				c := two()
				for i := 0; i < n; i++ {
					m := ((i*step)%n + n) % n
					c.Tables[0].Columns = append(c.Tables[0].Columns, pgsrv.Column{Name: fmt.Sprintf("c%02d", m), Type: "text"})
					c.Tables[0].Constraints = append(c.Tables[0].Constraints, check(fmt.Sprintf("k%02d", i), fmt.Sprintf("c%02d > 1", m)))
					c.Tables[1].Constraints = append(c.Tables[1].Constraints, check(fmt.Sprintf("k%02d", m), fmt.Sprintf("c%02d > 1", i)))
				}
				for i := 0; i < n; i++ {
					t := &c.Tables[i%2]
					t.Indexes = append(t.Indexes, index(fmt.Sprintf("i%02d", ((i*step)%n+n)%n), t.Schema, t.Name, false, false, "a", []*ddl.IndexKey{{Column: "a"}}))
				}
				return c
			})
		}
	}
	// many columns and checks, and names that differ late
	for _, n := range counts() {
		for i, step := range []int{1, 2, 7919, 10006} {
			for _, width := range []int{0, 15, 16, 31, 32, 55, 59, 300} {
				if width > 55 && n > 100 || n > 300 && i == 1 {
					continue
				}
				add(fmt.Sprintf("%d columns and checks, step %d, after %d letters", n, step, width), func() *cat {
					c := two()
					same := strings.Repeat("n", width)
					c.Tables[0].Columns = nil
					for i := 0; i < n; i++ {
						x := fmt.Sprintf("%s%04d", same, (i*step+11)%10007%9973)
						c.Tables[0].Columns = append(c.Tables[0].Columns, pgsrv.Column{Name: x, Type: "text"})
						c.Tables[i%2].Constraints = append(c.Tables[i%2].Constraints, check(fmt.Sprintf("k%04d", (i*31)%10007), x+" > 1"))
					}
					return c
				})
			}
		}
	}
	// up to three indexes: every table, name and kind for each
	homes := [][2]string{{"public", "m"}, {"app", "n"}, {"app", "m"}}
	kindsOf := []struct{ primary, unique bool }{{true, true}, {false, true}, {false, false}}
	names := []string{"i_b", "i_a", "I_c"}
	for x := 0; x < 9*9*9; x++ {
		v := []int{x % 9, x / 9 % 9, x / 81}
		prim := map[int]int{}
		for _, y := range v {
			if y%3 == 0 {
				prim[y/3]++
			}
		}
		if prim[0] > 1 || prim[1] > 1 || prim[2] > 1 {
			continue // a table has one primary key
		}
		add(fmt.Sprintf("indexes %v", v), func() *cat {
			c := two()
			c.Tables = append(c.Tables, pgsrv.Table{Schema: "app", Name: "m", Owner: "o", Columns: []pgsrv.Column{{Name: "a", Type: "integer"}}})
			for i, y := range v {
				t := &c.Tables[y/3]
				k := kindsOf[y%3]
				if [2]string{t.Schema, t.Name} != homes[y/3] {
					panic("homes")
				}
				t.Indexes = append(t.Indexes, index(names[i], t.Schema, t.Name, k.primary, k.unique, "a", []*ddl.IndexKey{{Column: "a"}}))
			}
			return c
		})
	}
	return
}
