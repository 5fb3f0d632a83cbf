//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

var words = []string{
	"a", "", `"`, `\`, "\n", "x\ny\n", "\r\n", "\t", "${a}", "$${a}", "%{if a}", "%%{", "$", "%", "${", "}",
	"é", "\u2028", "\U0001F600", " a ", "#", "//x", "/*", "'", "`", "\"a\" = b", "\\n", "\\u0041", "\\${", "<<EOT\nx\nEOT\n", "a\"\"b", "\u0001", "\u007f",
}

// sample is a database with every kind of block and every field set.
func sample(n int) *ddl.Database {
	db := &ddl.Database{}
	c := 0
	filler(n, &c)(reflect.ValueOf(db).Elem())
	return db
}

// filler sets every field of a value to something else.
func filler(n int, count *int) (fill func(v reflect.Value)) {
	fill = func(v reflect.Value) {
		*count++
		c := *count
		switch v.Kind() {
		case reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				fill(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < n; i++ {
				v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
				fill(v.Index(i))
			}
		case reflect.String:
			v.SetString(fmt.Sprintf("s%d", c))
		case reflect.Bool:
			v.SetBool(c%2 == 0)
		case reflect.Int, reflect.Int64:
			v.SetInt(int64(c))
		case reflect.Float64:
			v.SetFloat(float64(c) / 4)
		default:
			panic(v.Kind())
		}
	}
	return
}

// large makes each place of a description long: its text, or its list.
func large() int {
	counts, lengths := []int{7, 33, 130, 400}, []int{100, 255, 256, 257, 1000, 4095, 4096, 4097, 65536, 70001}
	if thorough {
		counts = append(counts, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 3000)
		lengths = append(lengths, 63, 64, 65, 127, 128, 129, 8192, 8193, 65535, 65537, 1000000)
	}
	type job struct {
		name string
		make func() *ddl.Database
	}
	var jobs []job
	for _, l := range leaves(sample(1)) {
		v := l.at(sample(1))
		switch {
		case v.Kind() == reflect.String:
			for _, n := range lengths {
				for i, t := range []string{strings.Repeat("l", n), strings.Repeat("l\n", n/2), strings.Repeat("l ", n/2), strings.Repeat("\"", n/4), strings.Repeat("${", n/4), strings.Repeat("é", n/2), strings.Repeat("\\", n/4) + "\r\n"} {
					jobs = append(jobs, job{fmt.Sprintf("%s of %d characters, form %d", l.name, n, i), func() *ddl.Database {
						db := sample(1)
						l.at(db).SetString(t)
						return only(db, l)
					}})
				}
			}
		case v.Kind() == reflect.Slice:
			for _, n := range counts {
				for _, inner := range []int{0, 2} {
					jobs = append(jobs, job{fmt.Sprintf("%s with %d elements, each with %d", l.name, n, inner), func() *ddl.Database {
						db := sample(1)
						v := l.at(db)
						c := 1000
						fill := filler(inner, &c)
						for v.Len() < n {
							e := reflect.New(v.Type().Elem()).Elem()
							fill(e)
							v.Set(reflect.Append(v, e))
						}
						return only(db, l)
					}})
				}
			}
		}
	}
	for _, n := range []int{3, 5, 9} {
		jobs = append(jobs, job{fmt.Sprintf("%d of everything", n), func() *ddl.Database { return sample(n) }})
	}
	each(len(jobs), func(i int) {
		if w := trip(jobs[i].make()); w != "" {
			if len(w) > 3000 {
				w = w[:3000] + "..."
			}
			add("write "+jobs[i].name, w+"\nwith "+jobs[i].name)
		}
	})
	return len(jobs)
}

// leaf is a place in a description.
type leaf struct {
	name string
	path []int // struct fields and slice positions
}

// at finds the place in db; a nil pointer on the way is filled in.
func (l leaf) at(db *ddl.Database) reflect.Value {
	v := reflect.ValueOf(db).Elem()
	for _, i := range l.path {
		for v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() == reflect.Slice {
			v = v.Index(i)
		} else {
			v = v.Field(i)
		}
	}
	return v
}

// leaves lists the places of a database; block lists are places too.
func leaves(db *ddl.Database) []leaf {
	var out []leaf
	var walk func(name string, path []int, v reflect.Value)
	walk = func(name string, path []int, v reflect.Value) {
		path = append([]int(nil), path...)
		switch v.Kind() {
		case reflect.Ptr:
			if v.Type().Elem().Kind() != reflect.Struct {
				out = append(out, leaf{name, path})
				return
			}
			if !strings.HasSuffix(name, "]") {
				out = append(out, leaf{name, path})
			}
			walk(name, path, v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(name+"."+v.Type().Field(i).Name, append(path, i), v.Field(i))
			}
		case reflect.Slice:
			out = append(out, leaf{name, path})
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", name, i), append(path, i), v.Index(i))
			}
		default:
			out = append(out, leaf{name, path})
		}
	}
	walk("db", nil, reflect.ValueOf(db).Elem())
	return out
}

// values are the settings tried for a place.
func values(v reflect.Value, all bool) []reflect.Value {
	var out []reflect.Value
	add := func(x any) { out = append(out, reflect.ValueOf(x).Convert(v.Type())) }
	switch v.Kind() {
	case reflect.String:
		for i, w := range words {
			if all || i < 14 {
				add(w)
			}
		}
	case reflect.Bool:
		add(true)
		add(false)
	case reflect.Int64, reflect.Int:
		for _, n := range []int64{0, 1, -1, 9223372036854775807, -9223372036854775808, 9007199254740993} {
			add(n)
		}
	case reflect.Ptr:
		out = append(out, reflect.Zero(v.Type()))
		if v.Type().Elem().Kind() != reflect.Struct {
			var e []any
			switch v.Type().Elem().Kind() {
			case reflect.Int:
				e = []any{0, 1, -1, 2147483647, 9007199254740993}
			case reflect.Float64:
				e = []any{0.0, 0.1, 0.02, 1.5, 1e-9, 100.0, 0.30000000000000004, 3.0}
			case reflect.Bool:
				e = []any{true, false}
			}
			for _, x := range e {
				p := reflect.New(v.Type().Elem())
				p.Elem().Set(reflect.ValueOf(x))
				out = append(out, p)
			}
		} else {
			out = append(out, reflect.New(v.Type().Elem()))
		}
	case reflect.Slice:
		out = append(out, reflect.Zero(v.Type()))
		for k := 1; k <= 3 && k <= v.Len(); k++ {
			out = append(out, v.Slice(0, k))
		}
		if v.Type().Elem().Kind() == reflect.String {
			out = append(out, reflect.MakeSlice(v.Type(), 0, 0))
			for _, w := range words {
				out = append(out, reflect.ValueOf([]string{w}), reflect.ValueOf([]string{w, "b", w}))
			}
		} else {
			// a block without any optional setting, and a repeated block
			e := reflect.New(v.Type().Elem().Elem())
			out = append(out, reflect.Append(reflect.Zero(v.Type()), e))
			if v.Len() > 0 {
				out = append(out, reflect.Append(reflect.Zero(v.Type()), v.Index(0), v.Index(0), e))
			}
		}
	}
	return out
}

// norm makes descriptions comparable: an empty list is an absent one.
func norm(v any) string {
	var plain func(v reflect.Value) any
	plain = func(v reflect.Value) any {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return nil
			}
			return []any{plain(v.Elem())}
		case reflect.Struct:
			var out []any
			for i := 0; i < v.NumField(); i++ {
				out = append(out, v.Type().Field(i).Name, plain(v.Field(i)))
			}
			return out
		case reflect.Slice:
			out := []any{}
			for i := 0; i < v.Len(); i++ {
				out = append(out, plain(v.Index(i)))
			}
			return out
		}
		return fmt.Sprintf("%#v", v.Interface())
	}
	b, _ := json.Marshal(plain(reflect.ValueOf(v)))
	return string(b)
}

// only leaves just the top-level parts of db that hold the places.
func only(db *ddl.Database, ls ...leaf) *ddl.Database {
	v := reflect.ValueOf(db).Elem()
	for i := 0; i < v.NumField(); i++ {
		keep := false
		for _, l := range ls {
			keep = keep || l.path[0] == i
		}
		if !keep {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
	return db
}

var trips atomic.Int64

func write(db *ddl.Database) (out []byte, p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("writing panics: %v", r)
		}
	}()
	var b bytes.Buffer
	if err := db.Write(&b); err != nil {
		return nil, fmt.Sprintf("writing fails: %v", err)
	}
	return b.Bytes(), ""
}

func read(b []byte) (db *ddl.Database, err error, p string) {
	watch.Tick()
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("reading panics: %v", r)
		}
	}()
	db, err = ddl.ParseBytes(b, "x.hcl")
	return
}

// trip writes and reads db and explains what is lost.
func trip(db *ddl.Database) string {
	trips.Add(1)
	a := norm(db) // what is expected doesn't depend on what is done to it
	b1, p := write(db)
	if p != "" {
		return p
	}
	got, err, p := read(b1)
	if p != "" {
		return p
	}
	if err != nil {
		return fmt.Sprintf("what was written can't be read: %v\n%s", err, b1)
	}
	if b := norm(got); a != b {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		cut := func(s string) string {
			lo, hi := max(i-40, 0), min(i+40, len(s))
			return s[lo:hi]
		}
		return fmt.Sprintf("the description reads back differently: …%s… became …%s…", cut(a), cut(b))
	}
	b2, p := write(got)
	if p != "" {
		return p
	}
	if !bytes.Equal(b1, b2) {
		return fmt.Sprintf("the written form is not stable:\n%s\n%s", b1, b2)
	}
	return ""
}

func describe(v reflect.Value) string {
	s := norm(v.Interface())
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func roundTrips() (kinds int) {
	nleaf := len(leaves(sample(2)))
	// one place at a time: every value
	each(nleaf, func(k int) {
		l := leaves(sample(2))[k]
		n := len(values(l.at(sample(2)), true))
		for i := 0; i < n; i++ {
			db := sample(2)
			v := l.at(db)
			v.Set(values(v, true)[i])
			if i > 0 {
				only(db, l)
			}
			what := l.name + " = " + describe(v)
			if w := trip(db); w != "" {
				add("write "+what, w+"\nwith "+what)
			}
		}
	})
	// text that is not in Unicode normal form C
	each(len(leaves(sample(1))), func(k int) {
		db := sample(1)
		l := leaves(db)[k]
		v := l.at(db)
		if v.Kind() != reflect.String {
			return
		}
		v.SetString("xe\u0301x")
		only(db, l)
		if w := trip(db); w != "" {
			v.SetString("x\u00e9x")
			b, _ := write(db)
			want := norm(db)
			v.SetString("xe\u0301x")
			b2, _ := write(db)
			if got, err, _ := read(b2); err == nil && norm(got) == want && bytes.Contains(b, []byte("\u00e9")) {
				add("normalized "+l.name, "text is changed to Unicode normal form C\nat "+l.name)
			} else {
				add("write "+l.name+" decomposed", w)
			}
		}
	})
	// two places of one block
	type two struct{ a, b leaf }
	var pairs []two
	for _, a := range leaves(sample(1)) {
		for _, b := range leaves(sample(1)) {
			if a.name >= b.name {
				continue
			}
			la, lb := len(a.path), len(b.path)
			if !thorough && (la != lb || fmt.Sprint(a.path[:la-1]) != fmt.Sprint(b.path[:lb-1])) {
				continue
			}
			if strings.HasPrefix(b.name, a.name) && b.name != a.name {
				continue
			}
			pairs = append(pairs, two{a, b})
		}
	}
	each(len(pairs), func(k int) {
		a, b := pairs[k].a, pairs[k].b
		na, nb := len(values(a.at(sample(1)), thorough)), len(values(b.at(sample(1)), thorough))
		for i := 0; i < na; i++ {
			for j := 0; j < nb; j++ {
				db := sample(1)
				va, vb := a.at(db), b.at(db)
				va.Set(values(va, thorough)[i])
				vb.Set(values(vb, thorough)[j])
				only(db, a, b)
				if w := trip(db); w != "" {
					add(fmt.Sprintf("write %s = %s", a.name, describe(va)), fmt.Sprintf("%s\nwith %s = %s and %s = %s", w, a.name, describe(va), b.name, describe(vb)))
				}
			}
		}
	})
	// every number (0 to 2) of blocks of each kind, top level and in a table
	count := func(n int, lists func(db *ddl.Database) []reflect.Value) {
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		each(total, func(k int) {
			db := sample(2)
			k0 := k
			for _, v := range lists(db) {
				v.Set(v.Slice(0, k%3))
				k /= 3
			}
			if w := trip(db); w != "" {
				add(fmt.Sprintf("counts %d %d", n, k0), w)
			}
		})
	}
	blockLists := func(v reflect.Value) (out []reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Ptr {
				out = append(out, f)
			}
		}
		return
	}
	top := func(db *ddl.Database) []reflect.Value { return blockLists(reflect.ValueOf(db).Elem()) }
	tab := func(db *ddl.Database) []reflect.Value { return blockLists(reflect.ValueOf(db.Tables[0]).Elem()) }
	count(len(top(sample(2))), top)
	count(len(tab(sample(2))), tab)
	// which storage parameters are set: every subset
	st := reflect.TypeOf(ddl.TableStorageParameters{}).NumField()
	each(1<<min(st, 16), func(m int) {
		if !thorough && bits(m) > 3 && bits(m) < st-2 {
			return
		}
		db := sample(1)
		v := reflect.ValueOf(db.Tables[0].StorageParameters).Elem()
		for i := 0; i < v.NumField(); i++ {
			if m&(1<<i) == 0 {
				v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
			}
		}
		db = &ddl.Database{Tables: db.Tables}
		if w := trip(db); w != "" {
			add(fmt.Sprintf("storage parameters %b", m), w)
		}
	})
	return nleaf
}

func bits(m int) (n int) {
	for ; m > 0; m &= m - 1 {
		n++
	}
	return
}

// malformed: every single line of a written description deleted, misspelled,
// doubled or moved to the end; an accepted text must lose or gain exactly
// what the change says.
func malformed() (n int) {
	b, p := write(sample(1))
	if p != "" {
		add("malformed base", p)
		return
	}
	lines := strings.SplitAfter(string(b), "\n")
	bad := func(kind string, i int, text string, mustFail bool) {
		n++
		db, err, p := read([]byte(text))
		key := fmt.Sprintf("malformed %s line %d", kind, i+1)
		if p != "" {
			add(key, p+"\n"+lines[i])
			return
		}
		if err == nil && mustFail {
			add(key, fmt.Sprintf("a malformed description (%s) is accepted at line %d: %s", kind, i+1, lines[i]))
		}
		if err == nil && db == nil || err != nil && db != nil {
			add(key, "neither or both of a description and an error are returned")
		}
		// reading from a file must agree
		f := filepath.Join(tmp, fmt.Sprintf("d%d.hcl", n))
		if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			panic(err)
		}
		fdb, ferr := ddl.ParseFile(f)
		os.Remove(f)
		if (ferr == nil) != (err == nil) || err == nil && norm(fdb) != norm(db) {
			add(key, fmt.Sprintf("reading a file and reading its bytes disagree: %v, %v", ferr, err))
		}
	}
	for i, line := range lines {
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		pre, post := strings.Join(lines[:i], ""), strings.Join(lines[i+1:], "")
		bad("misspelled", i, pre+"x"+strings.TrimLeft(line, " ")+post, t != "}" || true)
		bad("unknown setting before", i, pre+"nosuch = 1\n"+line+post, true)
		bad("unknown block before", i, pre+"nosuch \"x\" {\n}\n"+line+post, true)
		bad("stray quote", i, pre+strings.TrimRight(line, "\n")+" \"\n"+post, true)
		if strings.Contains(t, " = ") {
			name := strings.Fields(t)[0]
			bad("setting removed", i, pre+post, required[block(lines[:i])+"."+name])
			bad("set twice", i, pre+line+line+post, true)
			bad("no value", i, pre+line[:strings.Index(line, "=")+1]+"\n"+post, true)
			bad("unknown value", i, pre+line[:strings.Index(line, "=")+1]+" nosuch\n"+post, true)
			bad("a block as value", i, pre+line[:strings.Index(line, "=")]+"{\n}\n"+post, true)
			bad("an object as value", i, pre+line[:strings.Index(line, "=")+1]+" {}\n"+post, !strings.Contains(line, "["))
		} else {
			bad("removed", i, pre+post, true)
		}
		if strings.Contains(t, "{") {
			bad("extra label", i, pre+strings.Replace(line, "{", "\"more\" {", 1)+post, true)
			if k := strings.Index(line, "\""); k > 0 {
				bad("no label", i, pre+line[:k]+"{\n"+post, true)
			}
		}
	}
	return
}

// bothWays reads a text as bytes and from a file, which must agree.
func bothWays(key, text string, n int) (db *ddl.Database, err error) {
	db, err, p := read([]byte(text))
	if p != "" {
		add(key, p)
		return
	}
	if err == nil && db == nil || err != nil && db != nil {
		add(key, "neither or both of a description and an error are returned")
	}
	f := filepath.Join(tmp, fmt.Sprintf("e%d.hcl", n))
	if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	var fdb *ddl.Database
	var ferr error
	func() {
		defer func() {
			if r := recover(); r != nil {
				add(key, fmt.Sprintf("reading a file panics: %v", r))
			}
		}()
		fdb, ferr = ddl.ParseFile(f)
	}()
	switch {
	case (ferr == nil) != (err == nil):
		add(key, fmt.Sprintf("reading a file gives the error %v, reading its bytes %v", ferr, err))
	case err == nil && norm(fdb) != norm(db):
		add(key, fmt.Sprintf("a file is read as %s, its bytes as %s", norm(fdb), norm(db)))
	}
	return db, err
}

// rawTexts: texts as people and other programs write them. Reading a file
// and reading its bytes must agree on all, and what they say must not depend
// on blanks, comments and the ends of lines.
func rawTexts() int {
	b, p := write(sample(1))
	if p != "" {
		add("raw base", p)
		return 0
	}
	plain := string(b)
	type text struct {
		key, text string
		same      bool // it says what the plain text says
	}
	var ts []text
	ad := func(same bool, t, f string, a ...any) { ts = append(ts, text{"text " + fmt.Sprintf(f, a...), t, same}) }
	ad(true, plain, "plain")
	ad(true, strings.ReplaceAll(plain, "\n", "\r\n"), "with CRLF")
	ad(false, strings.ReplaceAll(plain, "\n", "\r"), "with CR")
	ad(false, "\ufeff"+plain, "with a byte order mark")
	ad(false, strings.TrimRight(plain, "\n"), "without a last line end")
	ad(true, plain+"\n\n", "with empty lines")
	ad(true, "# x\n"+strings.ReplaceAll(plain, "\n", " // c\n")+"/* x\ny */\n", "with comments")
	ad(true, strings.ReplaceAll(plain, "  ", "\t"), "with tabs")
	ad(true, strings.ReplaceAll(plain, " = ", "="), "without blanks")
	ad(true, strings.ReplaceAll(plain, "\"s", "\"\\u0073"), "with escapes")
	ad(false, "", "empty")
	ad(false, "\x00", "NUL")
	ad(false, "\xff", "no UTF-8")
	// texts in which line ends are part of a value
	for _, op := range []string{"<<", "<<-"} {
		for _, nl := range []string{"\n", "\r\n"} {
			for _, body := range []string{"one", "one\ntwo", "one\r\ntwo\r\n", "  one\n    two", "\tone\r\n\ttwo", "", "$${x}", "a\rb", "é\u2028x", "# no comment", "\"q\""} {
				h := fmt.Sprintf("function \"s\" \"f\" {%[1]s  returns = \"x\"%[1]s  language = \"y\"%[1]s  definition = %[2]sEND%[1]s%[3]s%[1]sEND%[1]s}%[1]s", nl, op, body)
				ad(false, h, "%q", h)
			}
		}
	}
	for _, v := range []string{"a\\r\\nb", "a\r\nb", "a\nb", "a\rb", "a\tb", "\\u000d", "\x00", "\xff", "${1}", "$${1}", "${\"x\"}", "%%{if true}x%%{endif}"} {
		h := fmt.Sprintf("schema \"s\" {\n  owner = \"%s\"\n  comment = \"%s\"\n}\n", v, v)
		ad(false, h, "%q", h)
	}
	// every truncation, and every byte replaced
	for i := range plain {
		ad(false, plain[:i], "cut after %d bytes", i)
		for _, c := range []string{"", "\r", "\n", "\r\n", "\x00", "\xff", "\"", "{", "}", "#", "$", "\\", "\ufeff", ","} {
			ad(false, plain[:i]+c+plain[i+1:], "byte %d is %q", i, c)
			if c == "\r" || c == "\r\n" || c == "\ufeff" || c == "\x00" {
				ad(false, plain[:i]+c+plain[i:], "%q before byte %d", c, i)
			}
		}
	}
	want := norm(sample(1))
	each(len(ts), func(i int) {
		db, err := bothWays(ts[i].key, ts[i].text, i)
		if ts[i].same && (err != nil || norm(db) != want) {
			add(ts[i].key, fmt.Sprintf("the same description in another form is read differently (error %v)\n%s", err, ts[i].text))
		}
	})
	for _, f := range []string{filepath.Join(tmp, "nosuch.hcl"), tmp} {
		if db, err := ddl.ParseFile(f); err == nil || db != nil {
			add("no file", "reading a file that is not there gives a description")
		}
	}
	return len(ts)
}

// required are the settings that have no default.
var required = map[string]bool{
	"function.returns": true, "function.language": true, "function.definition": true,
	"trigger.function": true, "trigger.when": true, "check.expression": true, "column.type": true,
	"foreign_key.columns": true, "foreign_key.referenced": true,
	"owned_by.schema": true, "owned_by.table": true, "owned_by.column": true,
}

// block is the innermost open block after the lines.
func block(lines []string) string {
	var open []string
	for _, l := range lines {
		if t := strings.TrimSpace(l); strings.HasSuffix(t, "{") {
			open = append(open, strings.Fields(t)[0])
		} else if t == "}" {
			open = open[:len(open)-1]
		}
	}
	return open[len(open)-1]
}
