//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

// ---- C25

type bad struct{}    // can't be evaluated
type object struct{} // neither text, number nor list

// What the texts of the documents stand for.
var meaning = map[string]any{
	`"a"`: "a", `"b"`: "b", `"text"`: "text", `""`: "", `"t1"`: "t1", `"two words"`: "two words", `"2"`: "2", `"x"`: "x", `"nope"`: "nope",
	`"\"q\" \\ \n \u00e9 é $ % #"`: "\"q\" \\ \n é é $ % #", `"a${"b"}c"`: "abc", `"$${x}"`: "${x}",
	"<<EOF\n  SELECT 1\n\n;\nEOF": "  SELECT 1\n\n;\n",
	`1`:                           1.0, `3`: 3.0, `0`: 0.0, `-1`: -1.0, `1.5`: 1.5, `1e30`: 1e30, `true`: true, `null`: nil, `1 + 1`: 2.0,
	`[]`: []any{}, `["t1"]`: []any{"t1"}, `["t2", "t1", "t2"]`: []any{"t2", "t1", "t2"}, `[""]`: []any{""}, `[1]`: []any{1.0}, `[null]`: []any{nil},
	`["ls", "-l", ""]`: []any{"ls", "-l", ""}, `[["t1"]]`: []any{[]any{"t1"}}, `["t1",]`: []any{"t1"}, `[{}]`: []any{object{}}, `["task:t1"]`: []any{"task:t1"},
	`{}`: object{}, `{ a = "b" }`: object{}, `nope`: bad{}, `"${nope}"`: bad{}, `upper("x")`: bad{}, `1 +`: bad{}, `"\x"`: bad{}, `"open`: bad{}, `[`: bad{}, `'x'`: bad{},
}

// A verdict on a setting: refused, or one of the values.
type verdict struct {
	must, may bool // refuse
	v         any
}

var refuse = verdict{must: true}

func text(v any) verdict {
	switch x := v.(type) {
	case string:
		return verdict{v: x}
	case float64:
		return verdict{may: true, v: fmt.Sprint(x)}
	case bool:
		return verdict{may: true, v: fmt.Sprint(x)}
	case nil:
		return verdict{may: true, v: ""}
	}
	return refuse
}

func integer(v any) verdict {
	switch x := v.(type) {
	case float64:
		if x != math.Trunc(x) || math.Abs(x) > 1<<62 {
			return refuse
		}
		return verdict{may: x < 1, v: int(x)}
	case string:
		if x == "2" {
			return verdict{may: true, v: 2}
		}
	case nil:
		return verdict{may: true, v: 0}
	}
	return refuse
}

func list(v any) verdict {
	switch x := v.(type) {
	case nil:
		return verdict{may: true, v: []string{}}
	case []any:
		out := verdict{v: []string{}}
		for _, e := range x {
			t := text(e)
			if t.must {
				return refuse
			}
			out.may = out.may || t.may
			out.v = append(out.v.([]string), t.v.(string))
		}
		return out
	}
	return refuse
}

// A block of a document.
type attr struct{ name, text string }

type block struct {
	keyword string
	labels  string // as written
	attrs   []attr
	tail    string // what else is in it
}

func (b block) String() string {
	s := b.keyword + " " + b.labels + " {\n"
	for _, a := range b.attrs {
		if a.text != "-" {
			s += "  " + a.name + " = " + a.text + "\n"
		}
	}
	return s + b.tail + "}\n"
}

func (b block) get(name string) (any, bool) {
	for _, a := range b.attrs {
		if a.name == name && a.text != "-" {
			v, ok := meaning[a.text]
			if !ok {
				panic("harness: no meaning: " + a.text)
			}
			return v, true
		}
	}
	return nil, false
}

// readLabels is what the labels stand for.
var labelTexts = map[string][]string{}

func labels(l ...string) string {
	k := ""
	for _, x := range l {
		k += fmt.Sprintf("%q ", x)
	}
	k = strings.TrimSpace(k)
	labelTexts[k] = l
	return k
}

func init() {
	labelTexts[`demo a`] = []string{"demo", "a"}
	labelTexts[`sh "t1"`] = []string{"sh", "t1"}
	labelTexts[`"pg" "a\"\u00e9\\"`] = []string{"pg", `a"é\`}
}

type want struct {
	refuse, may bool
	targets     map[string]map[string][2]any // string, max_concurrency
	tasks       map[string]wantTask
}

type wantTask struct {
	kind           string // the Go type
	after, provide []string
	require        []string
	value          any
}

var demoKinds = map[string]string{"echo": "*demo.Echo", "fail": "*demo.Fail", "rev": "*demo.Rev", "rot13": "*demo.Rot13", "sleep": "*demo.Sleep"}

// reference reads a document.
func reference(bs []block) want {
	w := want{targets: map[string]map[string][2]any{}, tasks: map[string]wantTask{}}
	for _, c := range []string{"demo", "pg", "sh"} {
		w.targets[c] = map[string][2]any{"": {"", 1}}
	}
	use := func(v verdict, def any) any {
		w.refuse = w.refuse || v.must
		w.may = w.may || v.may
		if v.must {
			return def
		}
		return v.v
	}
	check := func(b block, known ...string) {
		seen := map[string]bool{}
		for _, a := range b.attrs {
			if a.text == "-" {
				continue
			}
			if v := meaning[a.text]; v == (any)(bad{}) || !has(known, a.name) || seen[a.name] {
				w.refuse = true
			}
			seen[a.name] = true
		}
		if strings.TrimSpace(b.tail) != "" && !strings.HasPrefix(b.tail, "#") && !strings.HasPrefix(b.tail, "//") {
			w.refuse = true
		}
	}
	opt := func(b block, name string, f func(any) verdict, def any) any {
		if v, ok := b.get(name); ok && v != (any)(bad{}) {
			return use(f(v), def)
		}
		return def
	}
	declared := map[[2]string]bool{}
	for _, b := range bs {
		if b.keyword == "task" {
			continue
		}
		l, ok := labelTexts[b.labels]
		if b.keyword != "target" || !ok || len(l) != 2 || w.targets[l[0]] == nil {
			w.refuse = true
			continue
		}
		if declared[[2]string{l[0], l[1]}] {
			w.refuse = true
		}
		declared[[2]string{l[0], l[1]}] = true
		if l[0] != "demo" {
			check(b)
			w.targets[l[0]][l[1]] = [2]any{"", 1}
			continue
		}
		check(b, "string", "max_concurrency")
		if _, ok := b.get("string"); !ok {
			w.refuse = true
		}
		w.targets["demo"][l[1]] = [2]any{opt(b, "string", text, ""), opt(b, "max_concurrency", integer, 1)}
	}
	for _, b := range bs {
		if b.keyword != "task" {
			continue
		}
		l, ok := labelTexts[b.labels]
		if !ok || len(l) != 2 {
			w.refuse = true
			continue
		}
		class, kind, slash := strings.Cut(l[0], "/")
		t := wantTask{}
		group := w.targets[class]
		if group == nil {
			w.refuse = true
			continue
		}
		if _, ok := group[opt(b, "target", text, "").(string)]; !ok {
			w.refuse = true
		}
		common := []string{"target", "after", "provides", "requires"}
		t.after = opt(b, "after", list, []string{}).([]string)
		t.provide = opt(b, "provides", list, []string{}).([]string)
		t.require = opt(b, "requires", list, []string{}).([]string)
		switch class {
		case "demo":
			check(b, common...)
			if t.kind, ok = demoKinds[kind]; !ok {
				w.refuse = true
			}
		case "pg":
			check(b, append(common, "sql")...)
			if _, ok := b.get("sql"); !ok {
				w.refuse = true
			}
			t.kind = "*pg.Task"
			t.value = opt(b, "sql", text, "")
		case "sh":
			check(b, append(common, "args")...)
			if _, ok := b.get("args"); !ok {
				w.refuse = true
			}
			t.kind = "*sh.Task"
			t.value = opt(b, "args", list, []string{})
		}
		if class != "demo" {
			if kind != "" && kind != "exec" {
				w.refuse = true
			} else if slash {
				w.may = true
			}
		}
		if _, ok := w.tasks[l[1]]; ok {
			w.refuse = true
		}
		w.tasks[l[1]] = t
	}
	return w
}

func newSetParser() *parser.Parser {
	log := logger.Discard()
	return &parser.Parser{Targets: map[string]types.TargetFactory{
		"demo": &demo.TargetFactory{Log: log},
		"pg":   &pg.TargetFactory{Log: log},
		"sh":   &sh.TargetFactory{Log: log},
	}}
}

func parseFile(file string) (ts *types.TaskSet, err error, problem string) {
	problem = cases.Guarded(func() { ts, err = newSetParser().Parse(file) })
	return
}

func setFile(s string) string {
	f := filepath.Join(cases.Tmp, fmt.Sprintf("set%d.hcl", os.Getpid()))
	cases.Must(os.WriteFile(f, []byte(s), 0o644))
	return f
}

func parseCase(r *result, bs []block) {
	doc := ""
	for _, b := range bs {
		doc += b.String()
	}
	r.State()
	r.Count("transitions", len(bs))
	w := reference(bs)
	ts, err, problem := parseFile(setFile(doc))
	msg := ""
	switch {
	case problem != "":
		msg = problem
	case err != nil:
		if !w.refuse && !w.may {
			msg = "it is refused: " + err.Error()
		}
	case w.refuse:
		msg = "it is accepted"
	default:
		msg = compare(ts, w)
	}
	if msg != "" {
		r.Add(fmt.Sprintf("%q: %s", doc, msg), "the task set\n%s%s", doc, msg)
	}
}

func sameList(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func compare(ts *types.TaskSet, w want) string {
	if len(ts.Targets) != len(w.targets) {
		return fmt.Sprintf("there are %d classes of targets", len(ts.Targets))
	}
	for class, group := range w.targets {
		if len(ts.Targets[class]) != len(group) {
			return fmt.Sprintf("there are %d %s targets", len(ts.Targets[class]), class)
		}
		for id, x := range group {
			t := ts.Targets[class][types.TargetID(id)]
			if t == nil {
				return fmt.Sprintf("the %s target %q is missing", class, id)
			}
			if got := fmt.Sprintf("%T", t); got != "*"+class+".Target" {
				return fmt.Sprintf("the %s target %q is a %s", class, id, got)
			}
			if d, ok := t.(*demo.Target); ok {
				if d.String != x[0] {
					return fmt.Sprintf("the string of %q is %q", id, d.String)
				}
				if d.MaxConcurrency != x[1] {
					return fmt.Sprintf("the limit of %q is %d", id, d.MaxConcurrency)
				}
			}
		}
	}
	if len(ts.Tasks) != len(w.tasks) {
		return fmt.Sprintf("there are %d tasks", len(ts.Tasks))
	}
	for id, x := range w.tasks {
		t := ts.Tasks[types.TaskID(id)]
		if t == nil {
			return fmt.Sprintf("task %q is missing", id)
		}
		if got := fmt.Sprintf("%T", t); got != x.kind {
			return fmt.Sprintf("task %q is a %s", id, got)
		}
		var deps []string
		for _, a := range x.after {
			deps = append(deps, "task:"+a)
		}
		deps = append(deps, x.require...)
		if !sameList(t.Dependencies(), deps) {
			return fmt.Sprintf("task %q depends on %q instead of %q", id, t.Dependencies(), deps)
		}
		if !sameList(t.Provides(), x.provide) {
			return fmt.Sprintf("task %q provides %q", id, t.Provides())
		}
		switch t := t.(type) {
		case *pg.Task:
			if t.SQL != x.value {
				return fmt.Sprintf("the SQL of task %q is %q", id, t.SQL)
			}
		case *sh.Task:
			if !sameList(t.Args, x.value.([]string)) {
				return fmt.Sprintf("the arguments of task %q are %q", id, t.Args)
			}
		}
	}
	return ""
}

// A place of the document and what can be there.
type place struct {
	name string
	alts []func(bs []block) []block // the first one changes nothing
}

func places() (ps []place) {
	texts := []string{"-", `""`, `"nope"`, `"\"q\" \\ \n \u00e9 é $ % #"`, `"a${"b"}c"`, `"$${x}"`, "<<EOF\n  SELECT 1\n\n;\nEOF",
		"3", "true", "null", "[]", `["t1"]`, "{}", "nope", `"${nope}"`, `upper("x")`, "1 +", `"\x"`, `"open`, "'x'"}
	ints := []string{"-", "1", "0", "-1", "1.5", "1e30", "1 + 1", `"2"`, `"x"`, "true", "null", "[]", "{}", "nope"}
	lists := []string{"-", "[]", `["t1"]`, `["t2", "t1", "t2"]`, `["task:t1"]`, `[""]`, "[1]", "[null]", `["t1",]`, `[["t1"]]`, "[{}]", `"t1"`, "3", "null", "{}", `{ a = "b" }`, "nope", "["}
	set := func(b int, name string, alts ...string) {
		p := place{name: fmt.Sprintf("%s of block %d", name, b)}
		p.alts = append(p.alts, func(bs []block) []block { return bs })
		for _, a := range alts {
			p.alts = append(p.alts, func(bs []block) []block {
				for i := range bs[b].attrs {
					if bs[b].attrs[i].name == name {
						bs[b].attrs[i].text = a
						return bs
					}
				}
				bs[b].attrs = append(bs[b].attrs, attr{name, a})
				return bs
			})
		}
		ps = append(ps, p)
	}
	change := func(name string, alts ...func(bs []block) []block) {
		ps = append(ps, place{name, append([]func(bs []block) []block{func(bs []block) []block { return bs }}, alts...)})
	}
	lab := func(b int, alts ...string) {
		var fs []func(bs []block) []block
		for _, a := range alts {
			fs = append(fs, func(bs []block) []block { bs[b].labels = a; return bs })
		}
		change(fmt.Sprintf("labels of block %d", b), fs...)
	}
	odd := []string{"", `"sh"`, `"sh" "x" "y"`, `"pg" "${x}"`, `"pg" "a\"\u00e9\\"`, `"sh" 3`, "sh"}
	lab(0, append([]string{labels("demo", ""), labels("demo", "b"), labels("demo", "x y/z"), labels("pg", "a"), labels("sh", "a"), labels("nope", "a"), labels("", "a"), labels("demo/echo", "a"), labels("Demo", "a"), `demo a`}, odd...)...)
	lab(1, append([]string{labels("pg", ""), labels("pg", "a"), labels("sh", "b"), labels("demo", "b"), labels("demo", "a"), labels("pgx", "b")}, odd...)...)
	lab(2, append([]string{labels("demo/fail", "t1"), labels("demo/rev", "t1"), labels("demo/rot13", "t1"), labels("demo/sleep", "t1"), labels("demo/nope", "t1"), labels("demo/", "t1"), labels("demo", "t1"),
		labels("demo/echo/x", "t1"), labels("demo/Echo", "t1"), labels("pg/echo", "t1"), labels("sh", "t1"), labels("/echo", "t1"), labels("", "t1"), labels("nope/echo", "t1"), labels("nope", "t1"), labels("demo/echo", "t2"), labels("demo/echo", ""), `sh "t1"`}, odd...)...)
	lab(3, append([]string{labels("pg/", "t2"), labels("pg/exec", "t2"), labels("pg/echo", "t2"), labels("pg/exec/", "t2"), labels("sh", "t2"), labels("demo/echo", "t2"), labels("pg", "t1"), labels("pg", "t3"), labels("pg", "x y/z")}, odd...)...)
	lab(4, append([]string{labels("sh/", "t3"), labels("sh/exec", "t3"), labels("sh/nope", "t3"), labels("pg", "t3"), labels("demo/rev", "t3"), labels("sh", "t1"), labels("sh", "t2"), labels("sh", "T1")}, odd...)...)
	set(0, "string", texts...)
	set(0, "max_concurrency", ints...)
	set(2, "target", append([]string{`"b"`}, texts...)...)
	set(3, "target", append([]string{`"a"`}, texts...)...)
	set(4, "target", `"a"`, `""`)
	for b := 2; b <= 4; b++ {
		set(b, "after", lists...)
		set(b, "provides", lists...)
		set(b, "requires", lists...)
		set(b, "provide", `["t1"]`)
		set(b, "require", `["t1"]`)
	}
	set(3, "sql", texts...)
	set(4, "args", append([]string{`["ls", "-l", ""]`}, lists...)...)
	for b := 0; b <= 4; b++ {
		for _, n := range []string{"extra", "string", "sql", "args", "seconds", "max_concurrency", "concurrency", "type", "name", "config", "Target", "id"} {
			known := b == 0 && (n == "string" || n == "max_concurrency") || b == 3 && n == "sql" || b == 4 && n == "args"
			if !known {
				set(b, n, `"x"`)
			}
		}
		tail := func(s string) func(bs []block) []block {
			return func(bs []block) []block { bs[b].tail = s; return bs }
		}
		change(fmt.Sprintf("contents of block %d", b), tail("  extra {}\n"), tail("  target \"demo\" \"z\" {\n  string = \"x\"\n}\n"), tail("# nothing\n"), tail("// {\n"), tail("}\n"), tail("{\n"), tail("  string = \"x\"\n  string = \"x\"\n"), tail("  after = []\n  after = []\n"))
		key := func(s string) func(bs []block) []block {
			return func(bs []block) []block { bs[b].keyword = s; return bs }
		}
		change(fmt.Sprintf("keyword of block %d", b), key("target"), key("task"), key("targets"), key("Task"), key("x"))
		change(fmt.Sprintf("number of blocks %d", b),
			func(bs []block) []block { return append(bs[:b:b], bs[b+1:]...) },
			func(bs []block) []block { return append(bs, bs[b]) })
	}
	change("order", func(bs []block) []block {
		for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
			bs[i], bs[j] = bs[j], bs[i]
		}
		return bs
	}, func(bs []block) []block { return nil })
	change("top", func(bs []block) []block { return append(bs, block{keyword: "extra"}) })
	return
}

// plain is the document that the others differ from.
func plain() []block {
	return []block{
		{keyword: "target", labels: labels("demo", "a"), attrs: []attr{{"string", `"text"`}, {"max_concurrency", "3"}}},
		{keyword: "target", labels: labels("pg", "b")},
		{keyword: "task", labels: labels("demo/echo", "t1"), attrs: []attr{{"target", `"a"`}, {"after", `["t1"]`}}},
		{keyword: "task", labels: labels("pg", "t2"), attrs: []attr{{"target", `"b"`}, {"after", `["t2", "t1", "t2"]`}, {"provides", `["t1"]`}, {"sql", `"text"`}}},
		{keyword: "task", labels: labels("sh", "t3"), attrs: []attr{{"requires", `["task:t1"]`}, {"provides", `["t2", "t1", "t2"]`}, {"args", `["ls", "-l", ""]`}}},
	}
}

func parseCases() (ks []cases.Case) {
	ps := places()
	// places that change the list of blocks come last
	sort.SliceStable(ps, func(i, j int) bool { return order(ps[i].name) < order(ps[j].name) })
	for i := range ps {
		ks = append(ks, cases.Case{Name: "change the " + ps[i].name, Run: func(r *result) {
			for _, f := range ps[i].alts[1:] {
				parseCase(r, f(plain()))
				for j := i + 1; j < len(ps); j++ {
					if order(ps[i].name) > 0 && order(ps[j].name) > 0 {
						continue
					}
					for _, g := range ps[j].alts[1:] {
						parseCase(r, g(f(plain())))
						if len(r.Viol) > 20 {
							return
						}
					}
				}
			}
		}})
	}
	ks = append(ks, largeSets()...)
	ks = append(ks, cases.Case{Name: "damaged documents", Run: func(r *result) {
		doc := ""
		for _, b := range plain() {
			doc += b.String()
		}
		whole, _, _ := parseFile(setFile(doc))
		try := func(s string, names bool) {
			r.State()
			ts, err, problem := parseFile(setFile(s))
			switch {
			case problem != "":
				r.Add(s+": "+problem, "the task set %q: %s", s, problem)
			case err == nil && ts == nil:
				r.Add(s+": nothing", "the task set %q: neither an error nor a task set", s)
			case err == nil && names:
				for id, t := range ts.Tasks {
					w := whole.Tasks[id]
					if w == nil || !reflect.DeepEqual(w.Dependencies(), t.Dependencies()) {
						r.Add(s+": other", "the task set %q: task %q is not what it is in the whole document", s, id)
					}
				}
			}
		}
		for i := 0; i <= len(doc); i++ {
			try(doc[:i], true)
			if i < len(doc) {
				try(doc[:i]+doc[i+1:], false)
			}
			for _, c := range []string{"{", "}", "\"", "\n", "$", "${", "[", "]", "=", ",", "#", "/*", "<<A\n", "\\", "é", "\xff", "\x00", "0", "null "} {
				try(doc[:i]+c+doc[i:], false)
			}
		}
		for _, f := range []string{filepath.Join(cases.Tmp, "nope.hcl"), cases.Tmp, "/dev/null/x", ""} {
			r.State()
			_, err, problem := parseFile(f)
			if err == nil || problem != "" {
				r.Add("file "+f, "reading %q: %v %s", f, err, problem)
			}
		}
	}})
	return
}

// mean notes the text for a value.
func mean(v any) string {
	var t string
	switch x := v.(type) {
	case string:
		t = fmt.Sprintf("%q", x)
	case int:
		t = fmt.Sprint(x)
		v = float64(x)
	case []string:
		var parts []string
		var vs []any
		for _, e := range x {
			parts = append(parts, fmt.Sprintf("%q", e))
			vs = append(vs, e)
		}
		t = "[" + strings.Join(parts, ", ") + "]"
		v = vs
	}
	meaning[t] = v
	return t
}

// largeSets are task sets with many or long parts.
func largeSets() (ks []cases.Case) {
	add := func(name string, bs []block) {
		ks = append(ks, cases.Case{Name: name, Run: func(r *result) { parseCase(r, bs) }})
	}
	counts, lengths := []int{5, 9, 17, 40, 130, 400}, []int{64, 255, 256, 257, 1024, 5000, 70000}
	if cases.Thorough {
		counts = append(counts, 33, 65, 129, 257, 1025, 3000)
		lengths = append(lengths, 31, 32, 33, 127, 128, 129, 4095, 4096, 4097, 65535, 65536, 1000000)
	}
	classes := []string{"demo", "pg", "sh"}
	id := func(i int) string { return fmt.Sprintf("n%d", i) }
	task := func(i, targets int) block {
		b := block{keyword: "task", labels: labels([]string{"demo/rev", "pg", "sh"}[i%3], id(i))}
		if k := i % (targets + 1); k < targets && k%3 == i%3 {
			b.attrs = append(b.attrs, attr{"target", mean(id(k))})
		}
		switch i % 3 {
		case 1:
			b.attrs = append(b.attrs, attr{"sql", mean("SELECT " + id(i))})
		case 2:
			b.attrs = append(b.attrs, attr{"args", mean([]string{"echo", id(i)})})
		}
		return b
	}
	for _, n := range counts {
		for _, targets := range []int{1, n} {
			for _, turned := range []bool{false, true} {
				for _, width := range []int{0, 1, n} {
					var bs []block
					for i := 0; i < targets; i++ {
						b := block{keyword: "target", labels: labels(classes[i%3], id(i))}
						if i%3 == 0 {
							b.attrs = []attr{{"string", mean(fmt.Sprint("text of ", i))}, {"max_concurrency", mean(i + 1)}}
						}
						bs = append(bs, b)
					}
					for i := 0; i < n; i++ {
						b := task(i, targets)
						if width > 0 && (width < n || n < 50 || i == n-1) {
							var after, provides, requires []string
							for j := i - 1; j >= 0 && j >= i-width; j-- {
								after = append(after, id(j))
								requires = append(requires, "task:"+id(j), "x"+id(j))
								provides = append(provides, "x"+id(i), "y"+id(j))
							}
							b.attrs = append(b.attrs, attr{"after", mean(after)}, attr{"requires", mean(requires)}, attr{"provides", mean(provides)})
						}
						bs = append(bs, b)
					}
					if turned {
						for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
							bs[i], bs[j] = bs[j], bs[i]
						}
					}
					add(fmt.Sprintf("%d targets, %d tasks, up to %d in each list, turned round: %v", targets, n, width, turned), bs)
				}
			}
		}
	}
	for _, n := range lengths {
		long := strings.Repeat("l", n-1)
		for k, name := range []string{"target", "text", "task", "list", "statement", "argument"} {
			word := func(i int, end string) string {
				if i == k {
					return long + end
				}
				return "w" + end
			}
			add(fmt.Sprintf("a %s of %d characters", name, n), []block{
				{keyword: "target", labels: labels("demo", word(0, "a")), attrs: []attr{{"string", mean(word(1, "b"))}}},
				{keyword: "target", labels: labels("demo", word(0, "b")), attrs: []attr{{"string", mean(word(1, "c"))}}},
				{keyword: "task", labels: labels("demo/echo", word(2, "a")), attrs: []attr{{"target", mean(word(0, "a"))}}},
				{keyword: "task", labels: labels("demo/rev", word(2, "b")), attrs: []attr{{"target", mean(word(0, "b"))}, {"after", mean([]string{word(2, "a"), word(2, "b")})}, {"provides", mean([]string{word(3, "a"), word(3, "b"), word(3, "a")})}}},
				{keyword: "task", labels: labels("pg", word(2, "c")), attrs: []attr{{"sql", mean(word(4, "d"))}, {"requires", mean([]string{word(3, "b"), word(3, "d")})}}},
				{keyword: "task", labels: labels("sh", word(2, "d")), attrs: []attr{{"args", mean([]string{word(5, "c"), word(5, "d"), word(5, "c")})}}},
			})
		}
	}
	return
}

func order(name string) int {
	switch {
	case strings.HasPrefix(name, "number"), name == "order", name == "top":
		return 1
	}
	return 0
}
