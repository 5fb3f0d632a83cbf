//go:build go1.22

// Command ddlparse decides C19 to C22: the parsers of check, foreign key,
// index and trigger definitions are compared with reference automata by a
// conformance test suite that covers every state and every byte (W-method),
// and over bounded spaces of definitions, for acceptance, content and the
// reported place of an error.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/ev"
	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

var (
	prop = flag.String("prop", "C19", "")
	rpl  = flag.String("replay", "", "")
	rep  *ev.Report
	mu   sync.Mutex

	cases, accepted, rejected atomic.Int64
	stop                      func() bool
	complete                  = true
)

type failure struct {
	Lang string `json:"lang"`
	Text string `json:"text"`
}

func fail(l *lang, s, what string) {
	mu.Lock()
	defer mu.Unlock()
	if len(what) > 2000 {
		what = what[:2000] + "..."
	}
	rep.Add(fmt.Sprintf("%s %.1000q", l.name, s), fmt.Sprintf("%s\n%s definition: %.2000q", what, l.name, s), failure{l.name, s})
}

func parse(l *lang, s string) (v any, err error, p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("parsing panics: %v", r)
		}
	}()
	v, err = l.parse(s)
	return
}

func errText(err error) (s, p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("formatting the error panics: %v", r)
		}
	}()
	return err.Error(), ""
}

func show(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// test compares the parser and the reference on one text.
func test(l *lang, s string) {
	cases.Add(1)
	pos, ok := l.dfa.run(s)
	v, err, p := parse(l, s)
	if p != "" {
		fail(l, s, p)
		return
	}
	if ok {
		accepted.Add(1)
	} else {
		rejected.Add(1)
	}
	if *prop == "C22" {
		if err == nil || ok {
			return
		}
		text, p := errText(err)
		if p == "" && text != message(s, pos) {
			p = fmt.Sprintf("the error shown is %q, the first character that cannot be there is number %d, which reads %q", text, pos, message(s, pos))
		}
		if p != "" {
			fail(l, s, p)
		}
		return
	}
	if ok != (err == nil) {
		if ok {
			fail(l, s, fmt.Sprintf("a valid definition is rejected: %v", err))
		} else {
			fail(l, s, fmt.Sprintf("a text that is not a definition is accepted, as %s", show(v)))
		}
		return
	}
	if !ok {
		if !reflect.ValueOf(v).IsNil() {
			fail(l, s, "a value is returned together with an error")
		}
		return
	}
	if w := l.expected(s); w == nil {
		panic("reference disagrees with itself: " + s)
	} else if !l.same(v, w) {
		fail(l, s, fmt.Sprintf("the definition is read as %s, it states %s", show(v), show(w)))
	}
}

// each spreads n items over the processors.
func each(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for p := 0; p < runtime.NumCPU(); p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				mu.Lock()
				full := len(rep.Violations) > 200
				mu.Unlock()
				if full || stop() {
					mu.Lock()
					complete = false
					mu.Unlock()
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// conformance is the W-method test suite: transition cover, extended by up
// to extra further bytes, followed by a characterizing set.
func conformance(l *lang, extra []byte, depth int) {
	d := l.dfa
	w := d.characterize()
	ends := []string{"\n", "\nmore\nlines", " ", "\u00e9", "x\n"}
	each(len(d.next), func(i int) {
		u := d.access[i]
		for k := 0; k <= len(u); k++ {
			test(l, u[:k]+u[k:]) // every state is entered through its own word
		}
		var more func(s string, depth int)
		more = func(s string, depth int) {
			for _, x := range w {
				test(l, s+x)
			}
			if q, ok := d.from(i, s[len(u):]); ok {
				test(l, s+d.finish[q])
			}
			if depth == 0 {
				return
			}
			for _, c := range extra {
				more(s+string([]byte{c}), depth-1)
			}
		}
		for c := 0; c < 256; c++ {
			s := u + string([]byte{byte(c)})
			for _, x := range w {
				test(l, s+x)
			}
			if q := d.next[i][c]; q >= 0 {
				test(l, s+d.finish[q])
			} else {
				test(l, s+d.finish[i])
			}
			for _, e := range ends {
				test(l, s+e)
			}
		}
		more(u, depth)
	})
}

// places puts line breaks of every kind into every place of white space,
// with an error at every position.
func places(l *lang) int {
	d := l.dfa
	n := len(d.next) * 6
	each(n, func(k int) {
		i, form := k/6, k%6
		u := d.access[i]
		switch form {
		case 1:
			u = strings.ReplaceAll(u, " ", "\n")
		case 2:
			u = strings.ReplaceAll(u, " ", "\n\n\t")
		case 3:
			u = strings.ReplaceAll(u, " ", "\r\n")
		case 4:
			u = "\n" + strings.Replace(u, " ", " \n", 1)
		case 5:
			if j := strings.LastIndexByte(u, ' '); j >= 0 {
				u = u[:j] + "\n" + u[j+1:]
			}
		}
		for c := 0; c < 256; c++ {
			if form != 0 && c >= 33 && c < 127 && c != '!' && c != 'x' && c != '(' && c != '"' {
				continue
			}
			for _, e := range []string{"", "\n", "x", "\nx\ny", "\n\n"} {
				test(l, u+string([]byte{byte(c)})+e)
			}
		}
	})
	return n
}

func tokens(s string) []string {
	var out []string
	word := func(c byte) bool { return c == '_' || c >= '0' && c <= '9' || c|32 >= 'a' && c|32 <= 'z' }
	for i := 0; i < len(s); {
		j := i + 1
		if word(s[i]) {
			for j < len(s) && word(s[j]) {
				j++
			}
		} else if s[i] == ' ' {
			for j < len(s) && s[j] == ' ' {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// edited calls f with every text one edit away from s.
func edited(s string, alpha []string, f func(string)) {
	t := tokens(s)
	for i := 0; i <= len(t); i++ {
		pre := strings.Join(t[:i], "")
		post := strings.Join(t[i:], "")
		if i < len(t) {
			rest := strings.Join(t[i+1:], "")
			f(pre + rest)
			for _, a := range alpha {
				f(pre + a + rest)
			}
			if i+1 < len(t) {
				f(pre + t[i+1] + t[i] + strings.Join(t[i+2:], ""))
			}
		}
		for _, a := range alpha {
			f(pre + a + post)
			f(pre + " " + a + post)
		}
	}
}

// edits applies every edit of up to depth tokens to every seed.
func edits(l *lang, depth int) {
	var level []string
	for _, s := range l.seeds {
		level = append(level, s, strings.ToLower(s), strings.ToUpper(s), strings.ReplaceAll(s, " ", "\n"), strings.ReplaceAll(s, " ", " \t\v"), " "+s+"\r\n")
	}
	alpha := append([]string{" ", "é", "9"}, l.toks...)
	var first []string
	for _, s := range level {
		test(l, s)
		for i := range s {
			test(l, s[:i])
			test(l, s[i:])
		}
		edited(s, alpha, func(e string) { first = append(first, e) })
	}
	sortUniq(&first)
	each(len(first), func(i int) {
		test(l, first[i])
		if depth > 1 {
			edited(first[i], alpha, func(e string) { test(l, e) })
		}
	})
}

func product(slots [][]string, f func(string)) int {
	n := 1
	for _, s := range slots {
		n *= len(s)
	}
	each(n, func(i int) {
		var sb strings.Builder
		for _, s := range slots {
			sb.WriteString(s[i%len(s)])
			i /= len(s)
		}
		f(sb.String())
	})
	return n
}

// sequences tests pre + every sequence of up to n pieces + post.
func sequences(l *lang, pre string, pieces []string, n int, posts ...string) int {
	total, count := 0, 1
	for k := 0; k <= n; k++ {
		total += count * len(posts)
		each(count, func(i int) {
			s := pre
			for j := 0; j < k; j++ {
				s += pieces[i%len(pieces)]
				i /= len(pieces)
			}
			for _, p := range posts {
				test(l, s+p)
			}
		})
		count *= len(pieces)
	}
	return total
}

var defer3 = []string{"", " DEFERRABLE", " deferrable\n", " NOT DEFERRABLE", " INITIALLY IMMEDIATE", " Initially\nDeferred", " DEFERRABLE INITIALLY IMMEDIATE", "  DEFERRABLE\t\tINITIALLY  DEFERRED", " DEFERRABLE INITIALLY DEFERRED ", " NOT DEFERRABLE INITIALLY IMMEDIATE", " NOT DEFERRABLE INITIALLY DEFERRED", " NOT DEFERRABLE DEFERRABLE"}

func forms(l *lang) int {
	t := func(s string) { test(l, s) }
	names := []string{"a", "Zz_9", "on"}
	cols := []string{"a", "a,b", " a , b1 ,C_ ", "b, a", "key, update"}
	acts := []string{"NO ACTION", "RESTRICT", "cascade", "SET\n NULL", "Set Default", "SET\vNULL"}
	clause := func(pre string, of []string) []string {
		out := []string{""}
		for _, x := range of {
			out = append(out, pre+x)
		}
		return out
	}
	switch l.name {
	case "check":
		pieces := []string{"a", ")", "(", " ", ") DEFERRABLE", " INITIALLY DEFERRED", "DEFERRABLE ", " NOT DEFERRABLE", "\n", ") INITIALLY DEFERRED"}
		n := sequences(l, "CHECK (", pieces, pick(5, 7), "", ")", ") DEFERRABLE", ") INITIALLY DEFERRED ", ") NOT DEFERRABLE")
		n += sequences(l, "CHECK ((", []string{"(", ")", "a"}, pick(9, 12), "", "))", ")) DEFERRABLE")
		n += sequences(l, "CHECK (", []string{"'", "\"", "  ", "\\", ")", "x"}, pick(6, 8), ")")
		return n + product([][]string{{"", "\n "}, {"CHECK", "check"}, {"", " ", "\t\n"}, {"("}, {"", " ", "\n"},
			{"a", "(a > 0)", "a = ')'", "a = 'x  y'", "é > \"ü\"", "f(a)\n AND (b)", "", "a) DEFERRABLE (b"}, {"", " "}, {")"}, defer3, {"", " ", "\n", " x", ")"}}, t)
	case "foreign key":
		rest := []string{"", " ", " x"}
		lists := listsOf([]string{"a", "ab", "b", "A", "abc_1"}, pick(4, 5), []string{",", ", "})
		short := listsOf([]string{"a", "ab", "b"}, 2, []string{", "})
		return product([][]string{{"FOREIGN KEY ("}, lists, {") REFERENCES t("}, short, {")"}}, t) +
			product([][]string{{"FOREIGN KEY ("}, short, {") REFERENCES t("}, lists, {")"}, {"", " DEFERRABLE"}}, t) + product([][]string{{"FOREIGN KEY ("}, cols, {")"}, {" REFERENCES "}, names, {"(", " ("}, cols, {")"},
			clause(" MATCH ", []string{"FULL", "partial", "Simple"}), clause(" ON DELETE ", acts), clause(" ON UPDATE ", acts[:pick(4, 6)]), defer3, rest[:pick(2, 3)]}, t) +
			product([][]string{{"foreign\tkey\n( a\n)references t( a )"}, clause(" match ", []string{"full", "none"}), clause(" on  update ", acts), clause("\non\ndelete\n", acts), defer3}, t)
	case "index":
		first := []string{"a", "lower(a)", "(a % 2)", "( a )", "f()", "(a || 'é')", "Desc", "f(a, b)", "a9_"}
		op := []string{"", " text_ops", " DESC", " asc", " Desc", " DESC NULLS LAST"}
		more := []string{"", ", b", ",b x_ops", " , b DESC", ", b asc, c DESC", ", lower(b)", ", (b)"}
		where := []string{"", " WHERE a", "\nwhere  (a = 'x  y')", " WHERE a  =  b ", " WHERE", " WHERE ", " WHERE  ", " WHERE é > 'it''s  ok'", " WHERE \"a  b\"  IS NOT NULL", " WHERE a = E'\\n  x'", " WHERE a = '\n\t' AND  b\n= ' '"}
		n := product([][]string{{"CREATE ", "create\n"}, {"", "UNIQUE ", "unique\t "}, {"INDEX "}, names, {" ON "}, names, {"", " USING btree", "\nusing\ngist"}, {" (", " ( ", "("}, first, op, more, {")", " )"}, where[:pick(9, 11)]}, t)
		keys := listsOf([]string{"a", "ab DESC", "b x_ops", "(a) asc", "lower(b)", "(c) desc", "c asc", "f(a) y_ops", "a"}, pick(5, 6), []string{","})
		n += product([][]string{{"CREATE INDEX i ON t USING btree ("}, keys, {")"}}, t)
		return n + sequences(l, "CREATE INDEX i ON t (a) WHERE ", []string{" ", "'", "a", "\"", "\n"}, pick(7, 9), "")
	case "trigger":
		evs := []string{"INSERT", "DELETE", "TRUNCATE", "UPDATE", "UPDATE OF a", "update  of a , b", "INSERT OR DELETE", "UPDATE OF a,b OR TRUNCATE", "DELETE OR UPDATE OF on", "INSERT OR UPDATE OR DELETE OR TRUNCATE", "UPDATE OF a OR UPDATE OF b", "UPDATE OF update, or", "SELECT", "UPDATE OF"}
		some := listsOf([]string{"INSERT", "DELETE", "TRUNCATE", "UPDATE", "UPDATE OF a", "UPDATE OF ab, a"}, pick(4, 5), []string{" OR "})
		cols := listsOf([]string{"a", "ab", "b", "A", "abc_1", "OR"}, pick(4, 5), []string{",", ", "})
		for _, c := range cols {
			some = append(some, "UPDATE OF "+c, "DELETE OR UPDATE OF "+c+" OR INSERT")
		}
		return product([][]string{{"CREATE TRIGGER x AFTER "}, some, {" ON t FOR EACH ROW EXECUTE PROCEDURE f()"}}, t) + product([][]string{{"CREATE ", "create\n"}, {"", "CONSTRAINT "}, {"TRIGGER "}, names, {" BEFORE ", " after ", " INSTEAD OF ", "\ninstead\v\nof\n"}, evs, {" ON "}, names, defer3,
			{"", " FOR EACH ROW", " FOR ROW", " FOR EACH STATEMENT", "\nfor\neach\nrow", " FOR STATEMENT", " FOR EACH"}, {" EXECUTE FUNCTION ", " execute procedure ", " EXECUTE "}, []string{"f()", "F_1() ", "f(1)", "f"}[:pick(3, 4)]}, t)
	}
	return 0
}

// listsOf are all lists of one to n items, with each of the separators.
func listsOf(items []string, n int, seps []string) (out []string) {
	for _, sep := range seps {
		level := []string{""}
		for k := 0; k < n; k++ {
			var next []string
			for _, l := range level {
				for _, x := range items {
					if k > 0 {
						x = sep + x
					}
					next = append(next, l+x)
				}
			}
			out = append(out, next...)
			level = next
		}
	}
	return
}

func pick(a, b int) int {
	if ev.Thorough() {
		return b
	}
	return a
}

// sizes makes each part of the seed definitions long: names, white space,
// lists, expressions; each is read whole, with an error at its end, and cut.
func sizes(l *lang) int {
	lengths := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097}
	if ev.Thorough() {
		for n := 2; n < 300; n++ {
			lengths = append(lengths, n)
		}
		lengths = append(lengths, 1023, 1024, 1025, 4095, 4096, 8193, 16385, 32769, 65535, 65536, 65537, 300000)
	}
	long := func(n int, sep string) string { // n names
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			fmt.Fprintf(&b, "c%d", i)
		}
		return b.String()
	}
	var out []string
	all := func(s string) {
		out = append(out, s, s+" é", s+"x", s+"\n(", s[:len(s)-1], s[:len(s)/2], s[:len(s)*2/3]+"\x00"+s[len(s)*2/3:])
	}
	for _, seed := range l.seeds {
		t := tokens(seed)
		for _, n := range lengths {
			name := strings.Repeat("n", n-1) + "_"
			for i := range t {
				with := func(x string) {
					all(strings.Join(t[:i], "") + x + strings.Join(t[i+1:], ""))
				}
				switch {
				case t[i][0] == ' ':
					with(strings.Repeat(" ", n))
					with(strings.Repeat("\n", n))
				case t[i][0] >= 'a' && t[i][0] <= 'z':
					with(name)
					if n <= 1000 {
						with(long(n, ","))
						with(long(n, " , "))
						if l.name == "index" {
							with(long(n, " DESC, "))
							with(long(n, " x_ops,"))
							with("f(" + long(n, ", ") + ")")
							with("(" + long(n, " + ") + ")")
						}
					}
				case t[i][0] >= 'A' && t[i][0] <= 'Z' && n < 200:
					with(t[i] + name)
					with(strings.Repeat(t[i]+" ", n))
				}
			}
		}
	}
	for _, n := range lengths {
		x := strings.Repeat("x", n)
		switch l.name {
		case "check":
			for _, e := range []string{x, "'" + x + "'", strings.Repeat("(", n) + "a" + strings.Repeat(")", n), strings.Repeat("a  AND\n", n), strings.Repeat("')' ", n), strings.Repeat(") DEFERRABLE ", n), strings.Repeat("é", n)} {
				for _, d := range defer3 {
					all("CHECK (" + e + ")" + d)
				}
			}
		case "index":
			for _, e := range []string{x, "(a = '" + x + "')", strings.Repeat("(", n) + "a" + strings.Repeat(")", n), strings.Repeat("a  AND\n", n), strings.Repeat("' '  ", n), "'" + strings.Repeat("  ", n) + "'", strings.Repeat("é", n)} {
				all("CREATE INDEX i ON t (a) WHERE " + e)
			}
		case "trigger":
			for _, e := range []string{strings.Repeat("INSERT OR ", n) + "DELETE", strings.Repeat("UPDATE OF a OR ", n) + "UPDATE OF b", "UPDATE OF " + long(n, ", ") + " OR DELETE", strings.Repeat("UPDATE OF a, b OR ", n) + "TRUNCATE"} {
				all("CREATE TRIGGER g BEFORE " + e + " ON t EXECUTE PROCEDURE f()")
			}
		case "foreign key":
			all("FOREIGN KEY (" + long(n, ", ") + ") REFERENCES t(" + long(n, ",") + ") ON DELETE CASCADE DEFERRABLE")
		}
	}
	sortUniq(&out)
	each(len(out), func(i int) { test(l, out[i]) })
	return len(out)
}

// nested compares the index parser with PostgreSQL's own reading of a key
// with nested parentheses: a text whose parentheses do not match is no
// definition, and nested calls are valid.
func nested(l *lang) int {
	n := 0
	pieces := []string{"(", ")", "f(", "a"}
	var expr func(t []string) int // pieces used, or -1
	expr = func(t []string) int {
		if len(t) == 0 {
			return -1
		}
		switch t[0] {
		case "a":
			return 1
		case "f(":
			if len(t) > 1 && t[1] == ")" {
				return 2
			}
			fallthrough
		case "(":
			if k := expr(t[1:]); k > 0 && len(t) > k+1 && t[k+1] == ")" {
				return k + 2
			}
		}
		return -1
	}
	var rec func(t []string, k int)
	rec = func(t []string, k int) {
		n++
		text := "CREATE INDEX i ON t (" + strings.Join(t, "")
		v, err, p := parse(l, text)
		e := expr(t)
		switch {
		case p != "":
			fail(l, text, p)
		case err == nil && strings.Count(text, "(") != strings.Count(text, ")"):
			rep.Add(fmt.Sprintf("nested %q", text), fmt.Sprintf("a text that is cut short is accepted, as %s\nindex definition: %q", show(v), text), failure{l.name, text})
		case err != nil && e > 0 && e == len(t)-1 && t[e] == ")":
			rep.Add(fmt.Sprintf("nested %q", text), fmt.Sprintf("a valid definition is rejected: %v\nindex definition: %q", err, text), failure{l.name, text})
		}
		if k > 0 {
			for _, x := range pieces {
				rec(append(append([]string(nil), t...), x), k-1)
			}
		}
	}
	rec(nil, 5)
	return n
}

func main() {
	flag.Parse()
	rep = ev.New(*prop, "model_checking")
	stop = ev.Budget(150*time.Second, 800*time.Second)
	if *rpl != "" {
		replay()
		return
	}
	watch.Start(func() {
		mu.Lock()
		rep.Add("no end", "reading a definition does not end", nil)
		rep.Finish()
	}, &cases)
	type row struct {
		Lang        string `json:"definition"`
		States      int    `json:"reference_states"`
		Transitions int    `json:"reference_transitions"`
		W           int    `json:"characterizing_words"`
		Example     string `json:"example"`
	}
	states, trans := 0, 0
	var samples []any
	for _, l := range langs() {
		if *prop != "C22" && l.prop != *prop {
			continue
		}
		nt := 0
		for i := range l.dfa.next {
			for c := 0; c < 256; c++ {
				if l.dfa.next[i][c] >= 0 {
					nt++
				}
			}
		}
		states += len(l.dfa.next)
		trans += len(l.dfa.next) * 256
		samples = append(samples, row{l.name, len(l.dfa.next), nt, len(l.dfa.characterize()), l.seeds[0]})
		t0 := cases.Load()
		extra := []byte{' ', 'a', '(', ')', ',', '\n', '9', 'D'}
		depth := 2
		if ev.Thorough() {
			extra, depth = append(extra, 'F', 'i', '_', 0xc3, 'e'), 3
		}
		conformance(l, extra, depth)
		t1 := cases.Load()
		places(l)
		t2 := cases.Load()
		edits(l, pick(1, 2))
		t3 := cases.Load()
		forms(l)
		t4 := cases.Load()
		large := sizes(l)
		if l.name == "index" && *prop == "C20" {
			rep.Coverage["nested_parenthesis_texts"] = nested(l)
		}
		samples = append(samples, map[string]any{"definition": l.name, "conformance_suite": t1 - t0, "error_places": t2 - t1, "edited_definitions": t3 - t2, "composed_definitions": t4 - t3, "long_definitions": large})
	}
	rep.Coverage["states"] = states
	rep.Coverage["transitions"] = trans
	rep.Coverage["traces_validated_against_impl"] = cases.Load()
	rep.Coverage["accepted"] = accepted.Load()
	rep.Coverage["rejected"] = rejected.Load()
	rep.Coverage["exhaustive"] = complete
	rep.Coverage["bound"] = fmt.Sprintf("every state and byte of the reference automaton, extended by up to %d bytes, times a characterizing set; every edit of up to %d tokens of the seed definitions; every combination of the listed clauses", pick(2, 3), pick(1, 2))
	rep.Coverage["samples"] = samples
	rep.Finish()
}

func replay() {
	var v struct{ Replay failure }
	b, err := os.ReadFile(*rpl)
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	for _, l := range langs() {
		if l.name == v.Replay.Lang {
			fmt.Printf("%q\n", v.Replay.Text)
			pos, ok := l.dfa.run(v.Replay.Text)
			fmt.Printf("reference: accepted=%v position=%d %s\n", ok, pos, show(l.expected(v.Replay.Text)))
			x, err, p := parse(l, v.Replay.Text)
			fmt.Println("parser:", show(x), err, p)
		}
	}
}
