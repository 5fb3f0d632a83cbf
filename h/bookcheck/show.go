//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/cli"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

// ---- C11

// command runs a command line.
func command(out *bytes.Buffer, args ...string) (err error, problem string) {
	var e bytes.Buffer
	problem = cases.Guarded(func() {
		cmd, perr := cli.RegisterCommands("test").Parse(args)
		if perr != nil {
			err = perr
			return
		}
		err = cmd(out, &e)
	})
	if e.Len() > 0 && problem == "" {
		problem = "it writes to standard error: " + e.String()
	}
	return
}

type bookTask struct {
	target string
	after  []string
}

type book struct {
	targets []string
	tasks   map[string]bookTask
	name    string // if it is large
}

func (b book) file() string {
	t := map[string]any{}
	for _, x := range b.targets {
		t[x] = map[string]any{"class": "demo"}
	}
	k := map[string]any{}
	for id, x := range b.tasks {
		m := map[string]any{"target": x.target + "/echo", "message": "a \"message\" for " + id}
		if x.after != nil {
			m["after"] = x.after
		}
		k[id] = m
	}
	return write("show.jsonnet", js(map[string]any{"targets": t, "tasks": k}))
}

func (b book) String() string {
	if b.name != "" {
		return b.name
	}
	var ids []string
	for id := range b.tasks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	s := fmt.Sprintf("targets %q", b.targets)
	for _, id := range ids {
		s += fmt.Sprintf(", task %q on %q", id, b.tasks[id].target)
		if a := b.tasks[id].after; a != nil {
			s += fmt.Sprintf(" after %q", a)
		}
	}
	return s
}

func showBook(r *result, b book, splines string) {
	f := b.file()
	bad := func(what, f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		r.Add(what+": "+b.String()+": "+m, "the %s of a runbook with %s: %s", what, b, m)
	}
	// list
	var out bytes.Buffer
	err, problem := command(&out, "runbook", "list", f)
	r.State()
	r.Count("transitions", len(b.tasks))
	if err != nil || problem != "" {
		bad("list", "%v %s", err, problem)
	} else if m := checkList(b, out.String()); m != "" {
		bad("list", "%s in %.400q", m, out.String())
	}
	// dot
	dangling := false
	for _, t := range b.tasks {
		for _, a := range t.after {
			if _, ok := b.tasks[a]; !ok {
				dangling = true
			}
		}
	}
	out.Reset()
	args := []string{"runbook", "dot", f}
	if splines != "" {
		args = append(args, "--splines", splines)
	}
	err, problem = command(&out, args...)
	r.State()
	r.Count("transitions", len(b.tasks))
	switch {
	case problem != "":
		bad("graph", "%s", problem)
	case err != nil:
		if !dangling {
			bad("graph", "%v", err)
		}
	default:
		if m := checkDot(b, splines, out.String()); m != "" {
			bad("graph", "%s in %.600q", m, out.String())
		}
	}
}

func checkList(b book, out string) string {
	_, rest, ok := strings.Cut(out, "\n")
	if !ok {
		return "no first line"
	}
	var ids []string
	for id := range b.tasks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		ok := false
		for _, n := range []string{id, strconv.Quote(id)} {
			for _, t := range []string{b.tasks[id].target, strconv.Quote(b.tasks[id].target)} {
				x, found := strings.CutPrefix(rest, "  "+n)
				if !found || ok {
					continue
				}
				y := strings.TrimLeft(x, " ")
				y = x[len(x)-len(y):]
				if len(x)-len(y) < 2 {
					continue
				}
				for {
					if z, found := strings.CutPrefix(y, t+"\n"); found {
						rest, ok = z, true
						break
					}
					// a target can begin with blanks
					if len(y) < len(x)-2 {
						y = x[len(x)-len(y)-1:]
						continue
					}
					break
				}
			}
		}
		if !ok {
			return fmt.Sprintf("task %q does not follow", id)
		}
	}
	if rest != "" {
		return fmt.Sprintf("%q follows", rest)
	}
	return ""
}

func checkDot(b book, splines, out string) string {
	g, err := readDot(out)
	if err != nil {
		return "it is not a graph: " + err.Error()
	}
	if splines != "" && g.attrs["splines"] != splines {
		return "the splines are not there"
	}
	// A name is what a viewer displays, or the bare value: the same for all.
	bare := func(s string) string { return s }
	first := ""
	for _, nodes := range []func(string) string{shown, bare} {
		for _, clusters := range []func(string) string{shown, bare} {
			m := compareDot(b, g, nodes, clusters)
			if m == "" {
				return ""
			}
			if first == "" {
				first = m
			}
		}
	}
	return first
}

func compareDot(b book, g *dotGraph, readNode, readLabel func(string) string) string {
	// what a node or cluster stands for: its label, or its name
	taskOf := map[string]string{}
	byName := map[string]string{}
	for _, id := range g.order {
		n := g.nodes[id]
		task := readNode(id)
		if l, ok := n.attrs["label"]; ok && l != `\N` {
			task = readNode(l)
		}
		_, ok := b.tasks[task]
		if !ok {
			return fmt.Sprintf("node %q is no task", id)
		}
		if x, dup := byName[task]; dup {
			return fmt.Sprintf("nodes %q and %q are the same task", x, id)
		}
		byName[task], taskOf[id] = id, task
		if n.stmts != 1 {
			return fmt.Sprintf("node %q is declared %d times", id, n.stmts)
		}
	}
	label := map[string]string{}
	seen := map[string]bool{}
	for _, c := range g.clusters {
		if !strings.HasPrefix(c.id, "cluster") {
			return fmt.Sprintf("subgraph %q is no cluster", c.id)
		}
		if seen[c.id] {
			return fmt.Sprintf("cluster %q stands there twice", c.id)
		}
		seen[c.id] = true
		label[c.id] = readLabel(c.attrs["label"])
	}
	for _, t := range b.targets {
		n := 0
		for _, l := range label {
			if l == t {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("target %q has %d clusters", t, n)
		}
	}
	if len(label) != len(b.targets) {
		return "there are too many clusters"
	}
	for id, t := range b.tasks {
		n := g.nodes[byName[id]]
		if n == nil || byName[id] == "" && taskOf[""] != id {
			return fmt.Sprintf("task %q has no node", id)
		}
		if len(n.clusters) != 1 || label[n.clusters[0]] != t.target {
			return fmt.Sprintf("task %q is in the clusters %q", id, n.clusters)
		}
	}
	var want, got []string
	for id, t := range b.tasks {
		for _, a := range t.after {
			want = append(want, fmt.Sprintf("%q->%q", a, id))
		}
	}
	for _, e := range g.edges {
		got = append(got, fmt.Sprintf("%q->%q", taskOf[e[0]], taskOf[e[1]]))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		return fmt.Sprintf("the edges are %s", got)
	}
	return ""
}

var names = []string{
	"a", "task", "", " ", "a b", " a", "a ", "a-b", "-", "--", "->", "a->b", "1", "1a", ".5", "-1", "1.2.3", "a.b", "a:b", "a,b", "a;b", "a=b", "a+b", "a&b", "&amp;", "a'b",
	`"`, `a"b`, `"a"`, `\`, `a\`, `a\b`, `a\nb`, `\"`, `\\`, `\N`, `"a\"`, "a\nb", "\n", "a\tb", "a\rb", "<", ">", "<b>", "a<b>", " <b>", "<b", "<>", "{", "}", "a{b", "[", "a[b]", "(", "#", "# a", "//", "a//b", "/*", "*/",
	"node", "edge", "graph", "digraph", "subgraph", "strict", "Node", "SUBGRAPH", "runbook", "cluster", "cluster_a", "cluster_d", "cluster_", "cluster_0", "cluster0", "label", "n0", "%s", "%", "$x", "é", "ε", "日本", "a\u00a0b", "\u2028", "_", "_a", "A", "longer-than-all-the-others-by-far",
}

func casesC11() (out []cases.Case) {
	// a target's name can not contain a slash, because tasks then can't name it
	targets := []string{}
	for _, n := range names {
		if !strings.Contains(n, "/") {
			targets = append(targets, n)
		}
	}
	for _, n := range names {
		out = append(out, cases.Case{Name: fmt.Sprintf("name %q", n), Run: func(r *result) {
			showBook(r, book{targets: []string{"d"}, tasks: map[string]bookTask{n: {target: "d"}}}, "")
			showBook(r, book{targets: []string{"d"}, tasks: map[string]bookTask{n: {target: "d", after: []string{n}}}}, "")
			if has(targets, n) {
				showBook(r, book{targets: []string{n}, tasks: nil}, "")
			}
			for _, t := range targets {
				showBook(r, book{targets: []string{t}, tasks: map[string]bookTask{n: {target: t}}}, "")
			}
			for _, m := range names {
				if m == n {
					continue
				}
				showBook(r, book{targets: []string{"d"}, tasks: map[string]bookTask{n: {target: "d", after: []string{m}}, m: {target: "d"}}}, "")
				showBook(r, book{targets: []string{"d", "a"}, tasks: map[string]bookTask{n: {target: "d"}, m: {target: "a", after: []string{n, "x"}}, "x": {target: "d"}}}, "")
				if has(targets, n) && has(targets, m) {
					showBook(r, book{targets: []string{n, m}, tasks: map[string]bookTask{"x": {target: n}, "y": {target: m, after: []string{"x"}}}}, "")
					showBook(r, book{targets: []string{n, m}, tasks: map[string]bookTask{n: {target: m}, m: {target: n, after: []string{n}}, "a": {target: n}}}, "")
				}
			}
		}})
	}
	// every relation on three tasks, with itself too, and every placement
	ids := []string{"x", "y", "z"}
	for place := 0; place < 8; place++ {
		for block := 0; block < 8; block++ {
			out = append(out, cases.Case{Name: fmt.Sprintf("relations %d on placement %d", block, place), Run: func(r *result) {
				for rel := block * 64; rel < block*64+64; rel++ {
					b := book{targets: []string{"d", "e"}, tasks: map[string]bookTask{}}
					for i, id := range ids {
						t := bookTask{target: b.targets[place>>i&1]}
						for j, a := range ids {
							if rel>>(3*i+j)&1 == 1 {
								t.after = append(t.after, a)
							}
						}
						b.tasks[id] = t
					}
					showBook(r, b, []string{"", "curved", "line", "ortho"}[rel%4])
				}
			}})
		}
	}
	out = append(out, cases.Case{Name: "sizes", Run: func(r *result) {
		for n := 0; n < 30; n++ {
			b := book{targets: []string{"d"}, tasks: map[string]bookTask{}}
			for i := 0; i < n; i++ {
				t := bookTask{target: "d"}
				for j := 0; j < i; j += 2 {
					t.after = append(t.after, fmt.Sprint("t", j))
				}
				b.tasks[fmt.Sprint("t", i)] = t
			}
			showBook(r, b, "")
		}
	}})
	out = append(out, cases.Case{Name: "dangling dependencies", Run: func(r *result) {
		for _, after := range [][]string{{"nope"}, {"x", "nope"}, {""}, {"d"}, {"cluster_d"}, {"runbook"}} {
			showBook(r, book{targets: []string{"d"}, tasks: map[string]bookTask{"x": {target: "d"}, "y": {target: "d", after: after}}}, "")
		}
	}})
	out = append(out, largeShown()...)
	// eval: values and keys
	values := []string{"null", "true", "false", "0", "-1", "1.5", "1e21", "1e-7", "123456789", "9007199254740993", "0.1", "1e308", `""`, `"a"`, "[]", "{}", "[[]]", "[{}]", "[1, [2, {\"a\": [null]}]]", `{"a": {"b": {"c": []}}}`}
	for _, n := range append(append([]string{}, names...), "\u0000", "\x1b[1m", "\u007f", "\U0001f600", "</script>", "a\bb\f") {
		values = append(values, js(n))
		values = append(values, js(map[string]any{n: n, "k": []any{n, 1}}))
	}
	for i := range values {
		out = append(out, cases.Case{Name: "value " + values[i], Run: func(r *result) {
			evalDoc(r, values[i])
			for j := range values {
				evalDoc(r, "["+values[i]+", "+values[j]+"]")
				evalDoc(r, `{"a": `+values[i]+`, "b": {"c": `+values[j]+"}}")
			}
		}})
	}
	return
}

// largeShown are runbooks with many or long parts, and large values.
func largeShown() (out []cases.Case) {
	add := func(name string, b book) {
		out = append(out, cases.Case{Name: name, Run: func(r *result) {
			b := b
			b.name = name
			showBook(r, b, "")
		}})
	}
	counts, lengths := []int{40, 130, 400}, []int{16, 31, 32, 33, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257, 1024, 5000, 16385, 65537}
	if cases.Thorough {
		counts = append(counts, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 3000)
		for n := 1; n < 300; n++ {
			lengths = append(lengths, n)
		}
		lengths = append(lengths, 1000000)
	}
	id := func(i int) string { return fmt.Sprint("t", i) }
	for _, n := range counts {
		for _, targets := range []int{1, 2, n} {
			for _, back := range []int{0, 1, 5, n} {
				b := book{tasks: map[string]bookTask{}}
				for i := 0; i < targets; i++ {
					b.targets = append(b.targets, id(i))
				}
				for i := 0; i < n; i++ {
					t := bookTask{target: id(i % targets)}
					for j := i - 1; j >= 0 && j >= i-back && (n < 50 || back < n || i > n-3); j-- {
						t.after = append(t.after, id(j))
					}
					b.tasks[id(i)] = t
				}
				add(fmt.Sprintf("%d targets, %d tasks, each after up to %d", targets, n, back), b)
			}
		}
	}
	for _, n := range lengths {
		long := strings.Repeat("l", n)
		add(fmt.Sprintf("a task with a name of %d characters", n), book{targets: []string{"d"}, tasks: map[string]bookTask{long: {target: "d"}, "x": {target: "d", after: []string{long}}}})
		add(fmt.Sprintf("tasks with names of %d characters", n+1), book{targets: []string{"d"}, tasks: map[string]bookTask{long + "a": {target: "d"}, long + "b": {target: "d", after: []string{long + "a"}}, long: {target: "d", after: []string{long + "b"}}}})
		add(fmt.Sprintf("targets with names of %d characters", n+1), book{targets: []string{long + "a", long + "b", long}, tasks: map[string]bookTask{"x": {target: long + "b"}, "y": {target: long, after: []string{"x"}}}})
		wide := strings.Repeat("é\"", n/2)
		add(fmt.Sprintf("names of %d wide characters", n), book{targets: []string{wide}, tasks: map[string]bookTask{wide: {target: wide}, "x": {target: wide, after: []string{wide}}}})
	}
	value := func(name, doc string) {
		out = append(out, cases.Case{Name: name, Run: func(r *result) { evalDoc(r, doc) }})
	}
	for _, n := range append([]int{1, 2, 3, 5, 9}, lengths...) {
		value(fmt.Sprintf("a text of %d characters", n), js(strings.Repeat("l", n)))
		value(fmt.Sprintf("a text of %d odd characters", n), js(strings.Repeat("\u001b\n\"<", n/4+1)))
		value(fmt.Sprintf("a field with a name of %d characters", n), js(map[string]int{strings.Repeat("l", n): 1, strings.Repeat("l", n-1): 2}))
		if n > 5000 {
			continue
		}
		var list []any
		fields := map[string]any{}
		for i := 0; i < n; i++ {
			list = append(list, i)
			fields[id(i)] = []any{i, id(i), nil, i%2 == 0}
		}
		value(fmt.Sprintf("a list of %d", n), js(list))
		value(fmt.Sprintf("an object with %d fields", n), js(fields))
		if n <= 100 {
			value(fmt.Sprintf("lists in lists, %d deep", n), strings.Repeat("[", n)+strings.Repeat("]", n))
			value(fmt.Sprintf("objects in objects, %d deep", n), strings.Repeat(`{"a":`, n)+"{}"+strings.Repeat("}", n))
		}
	}
	return
}

var colours = regexp.MustCompile("\x1b\\[[0-9;]*m")

func evalDoc(r *result, doc string) {
	f := write("eval.jsonnet", doc)
	for _, c := range []string{"", "auto", "true", "false"} {
		var out bytes.Buffer
		args := []string{"runbook", "eval", f}
		if c != "" {
			args = append(args, "--color", c)
		}
		err, problem := command(&out, args...)
		r.State()
		r.Count("transitions", 1)
		sig := fmt.Sprintf("eval with colour %q of %.300s", c, doc)
		if err != nil || problem != "" {
			r.Add(sig, "%s: %v %s", sig, err, problem)
			continue
		}
		text := out.Bytes()
		if c == "true" {
			text = colours.ReplaceAll(text, nil)
		}
		var got, want any
		cases.Must(json.Unmarshal([]byte(doc), &want))
		if err := json.Unmarshal(text, &got); err != nil {
			r.Add(sig, "%s: %v in %.300q", sig, err, text)
		} else if !reflect.DeepEqual(got, want) {
			r.Add(sig, "%s gives %.300q", sig, text)
		}
	}
}
