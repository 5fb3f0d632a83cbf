//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unicode/utf8"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/demo"
	"github.com/sjansen/pgutil/internal/runbook/parser"
	"github.com/sjansen/pgutil/internal/runbook/pg"
	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

// ---- C08

// A slot is a place of the document with the texts that can stand there;
// "-" leaves it out. The first one belongs to the plain document.
type slot struct {
	path []string
	alts []string
}

var slots []slot

func at(path string, alts ...string) {
	slots = append(slots, slot{strings.Split(path, " "), alts})
}

// The places are listed from the outside to the inside.
func init() {
	obj := "{}"
	at(".", obj, "null", "[]", `"x"`, "3")
	at("targets", obj, "-", "null", "[]", `"x"`)
	at("tasks", obj, "-", "null", "[]", `"x"`)
	at("extra", "-", "1", "null", "{}")
	at("target", "-", "{}")

	for _, t := range []struct{ id, class string }{{"s", "sh"}, {"t", "sh"}, {"p", "pg"}, {"d", "demo"}} {
		p := "targets " + t.id
		at(p, obj, "-", "null", "[]", `"sh"`, "1")
		at(p+" class", `"`+t.class+`"`, "-", "null", `""`, `"SH"`, `"nope"`, "1", `["sh"]`, `"sh"`, `"pg"`, `"demo"`)
		at(p+" extra", "-", `"x"`, "null")
		at(p+" concurrency", "-", "2")
		at(p+" config", obj, "-", "null", "[]", `"x"`, "1")
		at(p+" config extra", "-", "1", "null")
	}
	at("targets s/t", "-", `{"class": "sh"}`, `{"class": "demo"}`)
	at("targets d/sleep", "-", `{"class": "demo"}`)
	at("targets /", "-", `{"class": "demo"}`)
	ints := []string{"-", "null", "0", "1", "-1", "7", "1.5", `"2"`, "1e20", "[]", "true"}
	strs := []string{"-", "null", `""`, `"other"`, `"é\n\"$x"`, "1", "[]", "{}", "false"}
	lists := []string{"-", "null", "[]", `["A"]`, `["B", "A", "B"]`, `[""]`, "[1]", "[null]", `"A"`, "{}", `[["A"]]`}
	sets := []string{"-", "null", "{}", `{"K": "v"}`, `{"K": "", "L": "a=b"}`, `{"K": 1}`, `{"K": null}`, "[]", `"K"`, `{"K": {}}`}
	envs := func(p string) {
		at(p+" env", obj, "-", "null", "[]", `"x"`)
		at(p+" env allow", append([]string{`["PATH"]`}, lists...)...)
		at(p+" env deny", append([]string{`["HOME"]`}, lists...)...)
		at(p+" env set", append([]string{`{"X": "y"}`}, sets...)...)
		at(p+" env extra", "-", "1", "null")
	}
	at("targets s config concurrency", append([]string{"2"}, ints...)...)
	envs("targets s config")
	at("targets t config concurrency", "-", "4", "0")
	at("targets p config concurrency", append([]string{"3"}, ints...)...)
	for _, f := range []string{"host", "sslmode", "username", "password", "database"} {
		at("targets p config "+f, append([]string{`"my-` + f + `"`}, strs...)...)
	}
	at("targets p config port", append([]string{"5433", "65535", "65536"}, ints...)...)
	at("targets p config connect_retries", append([]string{"5"}, ints...)...)
	at("targets p config dbname", "-", `"x"`)
	at("targets d config string", append([]string{`"some text"`}, strs...)...)
	at("targets d config concurrency", "-", "1")

	for _, t := range []struct{ id, target string }{{"one", "s"}, {"two", "p/exec"}, {"three", "d/sleep"}, {"four", "t/exec"}, {"five", "d/echo"}} {
		p := "tasks " + t.id
		at(p, obj, "-", "null", "[]", `"x"`, "1")
		at(p+" target", `"`+t.target+`"`, "-", "null", `""`, `"nope"`, `"/"`, `"/exec"`, "1", `["s"]`, `"s"`, `"s/"`, `"s/exec"`, `"s/exec/"`, `"s/Exec"`, `"t"`,
			`"p"`, `"p/"`, `"p/nope"`, `"d"`, `"d/"`, `"d/exec"`, `"d/echo"`, `"d/fail"`, `"d/rev"`, `"d/rot13"`, `"d/sleep"`, `"d/ROT13"`, `"sh"`, `"sh/exec"`,
			`"s/t"`, `"s/t/exec"`, `"d/sleep/echo"`, `"d/sleep/sleep"`, `"d//echo"`, `"//echo"`, `"d/echo/"`, `" d/echo"`, `"d /echo"`, `"d/ echo"`, `"d.echo"`, `"D/echo"`)
		at(p+" after", append([]string{`["two"]`, `["nope", "one"]`}, lists...)...)
		at(p+" message", append([]string{`"hello"`}, strs...)...)
		at(p+" config", obj, "-", "null", "[]", `"x"`, "1")
		at(p+" config extra", "-", "1", "null")
		at(p+" extra", "-", "1", "null")
		at(p+" class", "-", `"sh"`)
	}
	at("tasks one config args", append([]string{`["ls", "-l"]`, `["/bin/ls"]`, `["./x/y"]`, `["../x"]`, `["x/y"]`, `["~/x"]`, `[".x/y"]`, `["..x/y"]`, `["x", "y/z", ""]`}, lists...)...)
	envs("tasks one config")
	at("tasks four config args", `["id"]`, "-", "[]", `["a/b"]`)
	at("tasks two config sql", append([]string{`"SELECT 1"`}, strs...)...)
	at("tasks two config SQL statement", "-")
	at("tasks three config seconds", append([]string{"2"}, ints...)...)
}

// document fills the slots; nil if a choice has no place to be.
func document(choice map[int]int) string {
	var root any
	rootText := ""
	type table = map[string]any
	for i, s := range slots {
		text := s.alts[choice[i]]
		if s.path[0] == "." {
			if text == "{}" {
				root = table{}
			} else {
				rootText = text
			}
			continue
		}
		if rootText != "" || text == "-" {
			continue
		}
		v := root
		for _, k := range s.path[:len(s.path)-1] {
			m, ok := v.(table)
			if !ok {
				v = nil
				break
			}
			v = m[k]
		}
		m, ok := v.(table)
		if !ok {
			continue
		}
		k := s.path[len(s.path)-1]
		if text == "{}" {
			m[k] = table{}
		} else {
			m[k] = json.RawMessage(text)
		}
	}
	if rootText != "" {
		return rootText
	}
	return js(root)
}

// What a file declares, by an independent reading.
type wantBook struct {
	fails   string // why it must be refused
	lenient bool   // it may be refused
	targets map[string]wantTarget
	tasks   map[string]wantTask
}

type wantTarget struct {
	Class string
	Conc  int
	Env   wantEnv
	PG    pgSettings
	Text  string
}

type pgSettings struct {
	Host, SSLMode, Username, Password, Database string
	Port, Retries                               int
}

type wantEnv struct {
	Allow, Deny []string
	Set         map[string]string
}

type wantTask struct {
	Target, Class, Message string
	After                  []string
	Args                   []string
	Env                    wantEnv
	SQL                    string
	Seconds                int
}

type reader struct{ w *wantBook }

func (r reader) fail(f string, a ...any) {
	if r.w.fails == "" {
		r.w.fails = fmt.Sprintf(f, a...)
	}
}

// object checks that v is an object with known fields.
func (r reader) object(v any, what string, fields ...string) map[string]any {
	m, ok := v.(map[string]any)
	if !ok {
		if v == nil {
			r.w.lenient = true
		} else {
			r.fail("%s is not an object", what)
		}
		return nil
	}
	for k := range m {
		known := len(fields) == 0
		for _, f := range fields {
			known = known || f == k
		}
		if !known {
			r.fail("%s has the unknown field %s", what, k)
		}
	}
	return m
}

func (r reader) text(m map[string]any, k string) string {
	v, ok := m[k]
	if !ok {
		return ""
	}
	if v == nil {
		r.w.lenient = true
		return ""
	}
	s, ok := v.(string)
	if !ok {
		r.fail("%s is not a text", k)
	}
	return s
}

func (r reader) int(m map[string]any, k string, def int) int {
	v, ok := m[k]
	if !ok {
		return def
	}
	if v == nil {
		r.w.lenient = true
		return def
	}
	f, ok := v.(float64)
	if !ok || f != math.Trunc(f) || math.Abs(f) > 1e15 {
		r.fail("%s is not an integer", k)
		return def
	}
	return int(f)
}

func (r reader) list(m map[string]any, k string) (out []string) {
	v, ok := m[k]
	if !ok {
		return nil
	}
	if v == nil {
		r.w.lenient = true
		return nil
	}
	l, ok := v.([]any)
	if !ok {
		r.fail("%s is not a list", k)
	}
	for _, x := range l {
		if x == nil {
			r.w.lenient = true
			out = append(out, "")
			continue
		}
		s, ok := x.(string)
		if !ok {
			r.fail("%s is not a list of texts", k)
		}
		out = append(out, s)
	}
	return
}

func (r reader) env(m map[string]any) (e wantEnv) {
	v, ok := m["env"]
	if !ok {
		return
	}
	o := r.object(v, "env", "allow", "deny", "set")
	e.Allow, e.Deny = r.list(o, "allow"), r.list(o, "deny")
	if v, ok := o["set"]; ok {
		s := r.object(v, "set")
		for k := range s {
			if e.Set == nil {
				e.Set = map[string]string{}
			}
			e.Set[k] = r.text(s, k)
		}
	}
	return
}

// config returns the settings of a target or a task, which can be left out.
func (r reader) config(m map[string]any, fields ...string) map[string]any {
	v, ok := m["config"]
	if !ok {
		return nil
	}
	return r.object(v, "config", append(fields, "\x00")...)
}

func readBook(text string) *wantBook {
	w := &wantBook{targets: map[string]wantTarget{}, tasks: map[string]wantTask{}}
	r := reader{w}
	var doc any
	cases.Must(json.Unmarshal([]byte(text), &doc))
	root := r.object(doc, "the file", "targets", "tasks")
	var targets, tasks map[string]any
	if v, ok := root["targets"]; ok {
		targets = r.object(v, "targets")
	}
	if v, ok := root["tasks"]; ok {
		tasks = r.object(v, "tasks")
	}
	for id, v := range targets {
		if v == nil {
			r.fail("target %s is null", id)
			continue
		}
		m := r.object(v, "target "+id, "class", "config")
		t := wantTarget{Class: r.text(m, "class"), Conc: 1}
		switch t.Class {
		case "sh":
			c := r.config(m, "concurrency", "env")
			t.Conc = r.int(c, "concurrency", 1)
			t.Env = r.env(c)
		case "pg":
			c := r.config(m, "concurrency", "host", "port", "sslmode", "username", "password", "database", "connect_retries")
			t.Conc = r.int(c, "concurrency", 1)
			t.PG = pgSettings{r.text(c, "host"), r.text(c, "sslmode"), r.text(c, "username"), r.text(c, "password"), r.text(c, "database"), r.int(c, "port", 0), r.int(c, "connect_retries", 0)}
			if t.PG.Port < 0 || t.PG.Port > 65535 {
				r.fail("no such port")
			}
			if t.PG.Retries < 0 {
				w.lenient = true
			}
			if s := t.PG.SSLMode; s != "" {
				w.lenient = true // may be checked when loading
			}
		case "demo":
			c := r.config(m, "string")
			t.Text = r.text(c, "string")
		default:
			r.fail("target %s has no known class", id)
		}
		if t.Conc < 1 {
			r.fail("target %s has no concurrency", id)
		}
		w.targets[id] = t
	}
	for id, v := range tasks {
		if v == nil {
			r.fail("task %s is null", id)
			continue
		}
		m := r.object(v, "task "+id, "after", "target", "message", "config")
		t := wantTask{Message: r.text(m, "message"), After: r.list(m, "after")}
		target, class, slash := strings.Cut(r.text(m, "target"), "/")
		t.Target, t.Class = target, class
		if slash && class == "" {
			w.lenient = true
		}
		tgt, ok := w.targets[target]
		if !ok {
			r.fail("task %s has no target", id)
			continue
		}
		switch tgt.Class + "/" + class {
		case "sh/", "sh/exec":
			t.Class = "exec"
			c := r.config(m, "args", "env")
			t.Args, t.Env = r.list(c, "args"), r.env(c)
			if len(t.Args) == 0 {
				r.fail("task %s has no program", id)
			} else if p := t.Args[0]; p == "" {
				w.lenient = true
			} else if strings.Contains(p, "/") && !strings.HasPrefix(p, "/") && !strings.HasPrefix(p, "./") && !strings.HasPrefix(p, "../") {
				r.fail("task %s has a program that is not acceptable", id)
			}
		case "pg/", "pg/exec":
			t.Class = "exec"
			c := r.config(m, "sql")
			t.SQL = r.text(c, "sql")
			if t.SQL == "" {
				r.fail("task %s has no SQL", id)
			}
		case "demo/echo", "demo/fail", "demo/rev", "demo/rot13":
			r.config(m)
		case "demo/sleep":
			c := r.config(m, "seconds")
			t.Seconds = r.int(c, "seconds", 1)
			if t.Seconds < 1 {
				w.lenient = true
				t.Seconds = 1
			}
		default:
			r.fail("task %s has no known class", id)
		}
		w.tasks[id] = t
	}
	return w
}

func sameList(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

func sameEnv(a wantEnv, b sh.Env) bool {
	return sameList(a.Allow, b.Allow) && sameList(a.Deny, b.Deny) && (len(a.Set) == 0 && len(b.Set) == 0 || reflect.DeepEqual(a.Set, b.Set))
}

// compare tells how a loaded runbook differs from what is wanted.
func compare(w *wantBook, b *types.Runbook) string {
	if len(b.Targets) != len(w.targets) {
		return fmt.Sprintf("there are %d targets instead of %d", len(b.Targets), len(w.targets))
	}
	if len(b.Tasks) != len(w.tasks) {
		return fmt.Sprintf("there are %d tasks instead of %d", len(b.Tasks), len(w.tasks))
	}
	seen := map[types.Target]string{}
	for id, t := range w.targets {
		x, ok := b.Targets[id]
		if !ok {
			return "target " + id + " is missing"
		}
		if y, ok := seen[x]; ok {
			return "targets " + id + " and " + y + " are the same"
		}
		seen[x] = id
		if n := x.ConcurrencyLimit(); n != t.Conc {
			return fmt.Sprintf("target %s has the concurrency limit %d instead of %d", id, n, t.Conc)
		}
		ok = false
		switch y := x.(type) {
		case *sh.Target:
			ok = t.Class == "sh" && sameEnv(t.Env, y.Env)
		case *pg.Target:
			ok = t.Class == "pg" && t.PG == pgSettings{y.Host, y.SSLMode, y.Username, y.Password, y.Database, int(y.Port), y.ConnectRetries}
		case *demo.Target:
			ok = t.Class == "demo" && y.String == t.Text
		}
		if !ok {
			return fmt.Sprintf("target %s is %s instead of %+v", id, show(x), t)
		}
	}
	for id, t := range w.tasks {
		x, ok := b.Tasks[id]
		if !ok || x == nil {
			return "task " + id + " is missing"
		}
		if x.Target != t.Target || x.Message != t.Message || !sameList(x.After, t.After) {
			return fmt.Sprintf("task %s is %+v instead of %+v", id, *x, t)
		}
		ok = false
		switch y := x.Config.(type) {
		case *sh.Exec:
			ok = t.Class == "exec" && w.targets[t.Target].Class == "sh" && sameList(t.Args, y.Args) && sameEnv(t.Env, y.Env)
		case *pg.Exec:
			ok = t.Class == "exec" && w.targets[t.Target].Class == "pg" && y.SQL == t.SQL
		case *demo.Echo:
			ok = t.Class == "echo"
		case *demo.Fail:
			ok = t.Class == "fail"
		case *demo.Rev:
			ok = t.Class == "rev"
		case *demo.Rot13:
			ok = t.Class == "rot13"
		case *demo.Sleep:
			ok = t.Class == "sleep" && y.Seconds == t.Seconds
		}
		if !ok {
			return fmt.Sprintf("task %s is %s instead of %+v", id, show(x.Config), t)
		}
	}
	return ""
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%T", v)
	}
	return fmt.Sprintf("%T %s", v, b)
}

func theParser() *parser.Parser {
	io, o, e := quiet()
	return &parser.Parser{Targets: map[string]types.TargetFactory{
		"pg":   &pg.TargetFactory{Log: zap.NewNop().Sugar()},
		"sh":   &sh.TargetFactory{Log: io.Log, Basedir: scratch(), Stdout: o, Stderr: e},
		"demo": &demo.TargetFactory{Log: io.Log, Stdout: o},
	}}
}

// load loads a file in both ways and compares it with what is wanted.
func load(r *result, sig, file string, w *wantBook) {
	r.State()
	var b *types.Runbook
	var err error
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		r.Add(sig+": "+m, "%s: %s", sig, m)
	}
	p := theParser()
	problem := cases.Guarded(func() { b, err = p.Parse(file) })
	if problem != "" {
		bad("%s", problem)
		return
	}
	io, _, _ := quiet()
	var l map[runbook.TaskID]runbook.TargetID
	var lerr error
	if problem = cases.Guarded(func() { l, lerr = runbook.List(io, file) }); problem != "" {
		bad("%s", problem)
		return
	}
	if (err == nil) != (lerr == nil) {
		bad("loading gives the error %v, listing %v", err, lerr)
		return
	}
	if err != nil {
		if w.fails == "" && !w.lenient {
			bad("it is refused: %v", err)
		}
		return
	}
	if w.fails != "" {
		bad("it is accepted although %s", w.fails)
		return
	}
	if d := compare(w, b); d != "" {
		bad("%s", d)
	}
	if len(l) != len(w.tasks) {
		bad("%d tasks are listed", len(l))
	}
	for id, t := range w.tasks {
		if string(l[runbook.TaskID(id)]) != t.Target {
			bad("task %s is listed with the target %q", id, l[runbook.TaskID(id)])
		}
	}
}

func describe(c map[int]int) string {
	var out []string
	for i := range slots {
		if c[i] > 0 {
			out = append(out, fmt.Sprintf("%s: %s", strings.Join(slots[i].path, "."), slots[i].alts[c[i]]))
		}
	}
	return strings.Join(out, "; ")
}

// inside tells whether a change of slot j is lost because of that of slot i.
func inside(i, ai, j int) bool {
	a, b := slots[i], slots[j]
	if a.alts[ai] == "{}" {
		return false
	}
	if a.path[0] == "." {
		return true
	}
	if len(a.path) >= len(b.path) {
		return false
	}
	for k := range a.path {
		if a.path[k] != b.path[k] {
			return false
		}
	}
	return true
}

func casesC08() (out []cases.Case) {
	one := func(r *result, c map[int]int) {
		text := document(c)
		r.Count("transitions", len(c))
		load(r, "a runbook with "+describe(c), write("book.jsonnet", text), readBook(text))
	}
	out = append(out, cases.Case{Name: "the plain runbook", Run: func(r *result) { one(r, map[int]int{}) }})
	for i := range slots {
		for ai := 1; ai < len(slots[i].alts); ai++ {
			out = append(out, cases.Case{Name: "runbooks with " + describe(map[int]int{i: ai}), Run: func(r *result) {
				one(r, map[int]int{i: ai})
				for j := i + 1; j < len(slots); j++ {
					if inside(i, ai, j) {
						continue
					}
					for aj := 1; aj < len(slots[j].alts); aj++ {
						one(r, map[int]int{i: ai, j: aj})
						if !cases.Thorough || len(slots[i].path) < 4 && len(slots[j].path) < 4 {
							continue
						}
						for k := j + 1; k < len(slots); k++ {
							if inside(i, ai, k) || inside(j, aj, k) || !related(i, j, k) {
								continue
							}
							for ak := 1; ak < len(slots[k].alts); ak++ {
								one(r, map[int]int{i: ai, j: aj, k: ak})
							}
						}
					}
				}
			}})
		}
	}
	out = append(out, largeBooks()...)
	out = append(out, forms()...)
	return
}

// largeBooks are runbooks with many or long parts, and with unusual names.
func largeBooks() (out []cases.Case) {
	type obj = map[string]any
	add := func(name string, doc obj) {
		out = append(out, cases.Case{Name: name, Run: func(r *result) {
			text := js(doc)
			load(r, name, write("book.jsonnet", text), readBook(text))
		}})
	}
	counts, lengths := []int{5, 9, 17, 40, 130, 400}, []int{64, 255, 256, 257, 1024, 5000, 70000}
	if cases.Thorough {
		counts = append(counts, 33, 65, 129, 257, 1025, 3000)
		lengths = append(lengths, 31, 32, 33, 127, 128, 129, 4095, 4096, 4097, 65535, 65536, 1000000)
	}
	id := func(i int) string { return fmt.Sprintf("n%d", i) }
	list := func(from, n int) (out []string) {
		for i := from; i < from+n; i++ {
			out = append(out, id(i))
		}
		return
	}
	env := func(n int) obj {
		set := obj{}
		for i := 0; i < n; i++ {
			set[fmt.Sprintf("K%d", i)] = fmt.Sprintf("v%d=%d", i, n)
		}
		return obj{"allow": list(1, n), "deny": list(1000, n), "set": set}
	}
	for _, n := range counts {
		for _, targets := range []int{1, n} {
			for _, width := range []int{0, 1, n} {
				ts, ks := obj{}, obj{}
				for i := 0; i < targets; i++ {
					switch i % 3 {
					case 0:
						ts[id(i)] = obj{"class": "sh", "config": obj{"concurrency": i + 1, "env": env(width % 50)}}
					case 1:
						ts[id(i)] = obj{"class": "pg", "config": obj{"concurrency": n - i, "port": i + 1, "host": id(n - i), "connect_retries": i * i}}
					case 2:
						ts[id(i)] = obj{"class": "demo", "config": obj{"string": "text of " + id(i)}}
					}
				}
				for i := 0; i < n; i++ {
					k := i % targets
					t := obj{"target": id(k), "message": "task " + id(i)}
					switch k % 3 {
					case 0:
						t["config"] = obj{"args": append([]string{"echo"}, list(i, width%60)...), "env": env(i % 4)}
					case 1:
						t["config"] = obj{"sql": "SELECT " + id(i)}
					case 2:
						t["target"] = id(k) + "/" + []string{"echo", "rev", "rot13", "sleep", "fail"}[i%5]
						if i%5 == 3 {
							t["config"] = obj{"seconds": i + 1}
						}
					}
					if w := min(width, i); w > 0 && (n < 50 || width == 1 || i == n-1) {
						t["after"] = list(i-w, w)
					}
					ks[id(i)] = t
				}
				add(fmt.Sprintf("%d targets, %d tasks, up to %d in each list", targets, n, width), obj{"targets": ts, "tasks": ks})
			}
		}
	}
	book := func(word func(k int, s string) string) obj {
		return obj{
			"targets": obj{
				word(0, "a"): obj{"class": "sh", "config": obj{"env": obj{"allow": []string{word(1, "a"), word(1, "b")}, "deny": []string{word(1, "c")}, "set": obj{word(1, "d"): word(2, "a"), word(1, "e"): word(2, "b")}}}},
				word(0, "b"): obj{"class": "pg", "config": obj{"host": word(3, "a"), "username": word(3, "b"), "password": word(3, "c"), "database": word(3, "d")}},
				word(0, "c"): obj{"class": "demo", "config": obj{"string": word(4, "a")}},
			},
			"tasks": obj{
				word(5, "a"): obj{"target": word(0, "a"), "message": word(6, "a"), "config": obj{"args": []string{word(7, "a"), word(7, "b"), word(7, "a")}}},
				word(5, "b"): obj{"target": word(0, "b"), "message": word(6, "b"), "after": []string{word(5, "a")}, "config": obj{"sql": word(8, "a")}},
				word(5, "c"): obj{"target": word(0, "c") + "/echo", "message": word(6, "a"), "after": []string{word(5, "b"), word(5, "a"), word(5, "b")}},
			},
		}
	}
	parts := []string{"target", "variable", "value", "setting", "text", "task", "message", "argument", "statement"}
	for k, what := range parts {
		for _, n := range lengths {
			long := strings.Repeat("l", n-1)
			add(fmt.Sprintf("a %s of %d characters", what, n), book(func(i int, s string) string {
				if i == k {
					return long + s
				}
				return "w" + s
			}))
		}
		for _, f := range []string{"x %", "%d", "é%", "\u0301%", "😀%", " %", "% ", "\t%", "%\n", "\\%", "\"%", "'%", "$%", "${%}", "{{%}}", "`%`", "#%", "-%", "%:%", "%=%", "%,%", "[%]", "%(x)s", "%%", "C:\\%", "\x00%", "\x7f%", "\ufffd%", "\u2028%", "null%", "true%", "0%", "TARGET%", "é\xcc%"} {
			if !utf8.ValidString(f) {
				continue
			}
			add(fmt.Sprintf("a %s like %q", what, f), book(func(i int, s string) string {
				if i == k {
					return strings.ReplaceAll(f, "%", s)
				}
				return "w" + s
			}))
		}
	}
	return
}

// related: all places belong to one target or task.
func related(a ...int) bool {
	for _, i := range a {
		p, q := slots[i].path, slots[a[0]].path
		if len(p) < 2 || len(q) < 2 || p[0] != q[0] || p[1] != q[1] {
			return false
		}
	}
	return true
}

// forms are other ways to write the plain runbook down, and files that are
// no runbooks.
func forms() (out []cases.Case) {
	plain := document(map[int]int{})
	want := readBook(plain)
	bad := &wantBook{fails: "it is no runbook"}
	add := func(name string, w *wantBook, main string, files map[string]string) {
		for _, cwd := range []string{"elsewhere", "there"} {
			for _, rel := range []bool{false, true} {
				out = append(out, cases.Case{Name: fmt.Sprintf("form %s, caller %s, relative %v", name, cwd, rel), Run: func(r *result) {
					dir := scratch()
					for _, d := range []string{"book", "other"} {
						cases.Must(os.RemoveAll(filepath.Join(dir, d)))
					}
					file := filepath.Join(dir, "book", "main.jsonnet")
					if main != "\x00" {
						write("book/main.jsonnet", main)
					}
					for n, t := range files {
						write("book/"+n, t)
						write("other/"+filepath.Base(n), "error 'a file of the caller'")
					}
					write("other/x", "")
					wd := filepath.Join(dir, "other")
					if cwd == "there" {
						cases.Must(os.MkdirAll(filepath.Join(dir, "book"), 0o755))
						wd = filepath.Join(dir, "book")
					}
					cases.Must(os.Chdir(wd))
					defer os.Chdir(dir)
					f := file
					if rel {
						f, _ = filepath.Rel(wd, file)
					}
					load(r, fmt.Sprintf("the runbook as %s, called from %s, by a relative name: %v", name, cwd, rel), f, w)
				}})
			}
		}
	}
	add("json", want, plain, nil)
	add("local", want, "local b = "+plain+"; b", nil)
	add("function", want, "local f(x) = x; f("+plain+")", nil)
	add("addition", want, "{targets: {}} + "+plain, nil)
	add("import", want, "import 'lib.libsonnet'", map[string]string{"lib.libsonnet": plain})
	add("import from below", want, "import 'sub/lib.libsonnet'", map[string]string{"sub/lib.libsonnet": plain})
	add("import from above", want, "import 'sub/lib.libsonnet'", map[string]string{"sub/lib.libsonnet": "import 'base.libsonnet'", "base.libsonnet": plain})
	add("import of text", want, plain+" + {tasks+: {two+: {config+: {sql: importstr 'x.sql'}}}}", map[string]string{"x.sql": "SELECT 1"})
	add("hidden field", want, plain+" + {x:: 1}", nil)
	add("comment", want, "// a comment\n"+plain+"\n# more\n", nil)
	add("json with blanks", want, "\n\t "+plain+" \n", nil)
	add("nothing", bad, "", nil)
	add("half", bad, plain[:len(plain)/2], nil)
	add("twice", want, plain+plain, nil) // one added to the other
	add("missing import", bad, "import 'lib.libsonnet'", nil)
	add("error", bad, "error 'x'", nil)
	add("a function", bad, "function(x) x", nil)
	add("a failing assertion", bad, "assert false; "+plain, nil)
	add("the same field twice", bad, "{targets: {}, targets: {}}", nil)
	add("a missing file", bad, "\x00", nil)
	add("a directory", bad, "\x00", map[string]string{"main.jsonnet/x": ""})
	return
}
