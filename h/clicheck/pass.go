//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

// ---- C35: what the tasks of a run write

// A writing is a task that writes to the standard streams.
type writing struct {
	target  string // t, u: shells, d: a demonstration target
	op      string // of d: echo, rev, rot13, fail
	out     int    // index of what is written, -1 for nothing
	err     int
	status  int // how the program ends
	message string
	reads   bool // it copies its input first
}

// what is written
var payloads = func() []string {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	return []string{
		"", "a", "b\n", "\n", "%d %s %!\n", "one\r\ntwo\r\n", "\x00\xff\xfe", string(all),
		"h\u00e9\u2028\n", "INFO\tlike a log line\n", strings.Repeat("x", 65537), strings.Repeat("a line of text\n", 40000),
		"<&>\"'\\", " \t ",
	}
}()

// A passing is a run of a chain of tasks.
type passing struct {
	tasks []writing
	flags []string
	at    string // how the runbook is named
	debug bool
	loose bool // the tasks do not depend on each other
	file  bool // the standard streams are files, not pipes
	text  int  // the string of the demonstration target
}

func (p passing) name() string {
	s := ""
	for _, t := range p.tasks {
		s += fmt.Sprintf("%s%s(%d %d %d %q %v) ", t.target, t.op, t.out, t.err, t.status, t.message, t.reads)
	}
	return fmt.Sprintf("tasks %sflags %q at %s debug=%v loose=%v file=%v text %d", s, p.flags, p.at, p.debug, p.loose, p.file, p.text)
}

// the string of the demonstration target, the first one in most runs
var demoTexts = []string{"Hello, World! \u00e9", "", "%d 100%% %s", "AMNZ amnz @[`{", "two\nlines\n", "\u4e2d\U0001f600e\u0301", strings.Repeat("long ", 20000)}

func (p passing) book(dir string) string {
	targets := map[string]any{}
	tasks := map[string]any{}
	for i, t := range p.tasks {
		if t.target == "d" {
			targets["d"] = map[string]any{"class": "demo", "config": map[string]any{"string": demoTexts[p.text]}}
		} else {
			targets[t.target] = map[string]any{"class": "sh"}
		}
		task := map[string]any{"target": t.target}
		if t.target == "d" {
			task["target"] = "d/" + t.op
		} else {
			cmd := ""
			if t.reads {
				cmd += "cat; "
			}
			if t.out >= 0 {
				cmd += fmt.Sprintf("cat p%d; ", t.out)
			}
			if t.err >= 0 {
				cmd += fmt.Sprintf("cat p%d >&2; ", t.err)
			}
			task["config"] = map[string]any{"args": []string{"sh", "-c", cmd + fmt.Sprintf("exit %d", t.status)}}
		}
		if i > 0 && !p.loose {
			task["after"] = []string{p.task(i - 1)}
		}
		if t.message != "" {
			task["message"] = t.message
		}
		tasks[p.task(i)] = task
	}
	b, err := json.Marshal(map[string]any{"targets": targets, "tasks": tasks})
	cases.Must(err)
	return string(b)
}

// task names the i-th task; the names are in another order than the tasks.
func (p passing) task(i int) string { return string("mzakcx"[i]) }

// expected is what should be written, task by task, up to the first failure.
func (p passing) expected() (so, se []string, fails bool) {
	text := []rune(demoTexts[p.text])
	for _, t := range p.tasks {
		o, e := "", ""
		switch {
		case t.target != "d":
			if t.out >= 0 {
				o = payloads[t.out]
			}
			if t.err >= 0 {
				e = payloads[t.err]
			}
			fails = t.status != 0
		case t.op == "echo":
			o = string(text) + "\n"
		case t.op == "rev":
			for i, j := 0, len(text)-1; i < j; i, j = i+1, j-1 {
				text[i], text[j] = text[j], text[i]
			}
		case t.op == "rot13":
			for i, c := range text {
				if c|32 >= 'a' && c|32 <= 'z' {
					b := c &^ 31
					if c >= 'a' {
						b = 'a'
					} else {
						b = 'A'
					}
					text[i] = b + (c-b+13)%26
				}
			}
		case t.op == "fail":
			fails = true
		}
		so, se = append(so, o), append(se, e)
		if fails {
			return
		}
	}
	return
}

func (p passing) run(r *result, w *world) {
	dir := filepath.Join(scratch(), "passed")
	defer func() { cases.Must(os.RemoveAll(dir)) }()
	cases.Must(os.MkdirAll(filepath.Join(dir, "here"), 0o755))
	cases.Must(os.MkdirAll(filepath.Join(dir, "there"), 0o755))
	in := func(f string) string { return filepath.Join(dir, f) }
	for _, t := range p.tasks {
		for _, n := range []int{t.out, t.err} {
			if n >= 0 {
				cases.Must(os.WriteFile(in(fmt.Sprintf("here/p%d", n)), []byte(payloads[n]), 0o644))
				// a task that runs elsewhere finds something else
				cases.Must(os.WriteFile(in(fmt.Sprintf("there/p%d", n)), []byte("wrong directory\n"), 0o644))
			}
		}
	}
	cases.Must(os.WriteFile(in("here/book.json"), []byte(p.book(dir)), 0o644))
	cwd := in("here")
	file := p.at
	switch {
	case strings.HasPrefix(p.at, "/"):
		file, cwd = in("here/book.json"), in("there")
	case strings.HasPrefix(p.at, "../"):
		cwd = in("there")
	case strings.HasPrefix(p.at, "here/"):
		cwd = dir
	}
	args := append([]string{}, p.flags...)
	if p.debug {
		args = append(args, "--debug="+in("dbg"))
	}
	args = append(args, "runbook", "run", file)
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		if len(m) > 300 {
			m = m[:300]
		}
		r.Add(p.name()+": "+m, "%s: %s", p.name(), m)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, w.program, args...)
	c.Dir = cwd
	c.Stdin = strings.NewReader("what nobody should read\n")
	c.WaitDelay = 5 * time.Second
	var bo, be bytes.Buffer
	c.Stdout, c.Stderr = &bo, &be
	read := func() (string, string) { return bo.String(), be.String() }
	if p.file {
		fo, err := os.Create(in("stdout"))
		cases.Must(err)
		fe, err := os.Create(in("stderr"))
		cases.Must(err)
		c.Stdout, c.Stderr = fo, fe
		read = func() (string, string) {
			fo.Close()
			fe.Close()
			a, err := os.ReadFile(in("stdout"))
			cases.Must(err)
			b, err := os.ReadFile(in("stderr"))
			cases.Must(err)
			return string(a), string(b)
		}
	}
	err := c.Run()
	so, se := read()
	r.State()
	r.Count("transitions", len(p.tasks))
	r.Count("bytes passed on", len(so)+len(se))
	if ctx.Err() != nil {
		bad("it does not end (60 s)")
		return
	}
	xo, xe, fails := p.expected()
	if fails != (err != nil) {
		bad("the status is wrong: %v", err)
	}
	wo, we := strings.Join(xo, ""), strings.Join(xe, "")
	if p.loose {
		p.apart(so, xo, bad)
		return
	}
	// only log lines and the reason of a failure may be added
	verbose := false
	for _, f := range p.flags {
		verbose = verbose || strings.HasPrefix(f, "-v") || f == "--verbose"
	}
	switch {
	case verbose:
		rest := so
		for i, x := range xo {
			if m := p.tasks[i].message; m != "" {
				j := strings.Index(rest, m)
				if j < 0 {
					bad("the message of task %d is missing, or not before what the task writes", i)
					return
				}
				rest = rest[j+len(m):]
			}
			j := strings.Index(rest, x)
			if j < 0 {
				bad("standard output misses what task %d writes (%d bytes), or has it too early", i, len(x))
				return
			}
			rest = rest[j+len(x):]
		}
	case fails && !strings.HasPrefix(so, wo):
		bad("standard output starts with %s instead of %s", short(so), short(wo))
	case !fails && so != wo:
		bad("standard output is %s instead of %s", short(so), short(wo))
	}
	if fails && !strings.HasPrefix(se, we) || !fails && se != we {
		bad("standard error is %s instead of %s", short(se), short(we))
	}
}

// apart looks for what independent tasks write, each line once.
func (p passing) apart(so string, want []string, bad func(string, ...any)) {
	n := map[string]int{}
	for _, l := range strings.SplitAfter(so, "\n") {
		n[l]++
	}
	for _, x := range want {
		n[x]--
	}
	delete(n, "")
	for l, k := range n {
		if k != 0 {
			bad("%s is on standard output %+d times more than it should be", short(l), k)
			return
		}
	}
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func passings() (out []passing) {
	sh := func(t string, o, e, status int) writing { return writing{target: t, out: o, err: e, status: status} }
	flags := [][]string{nil, {"-q"}, {"-v"}, {"-vv"}, {"-q", "-q"}, {"--verbose", "--verbose", "--verbose"}}
	places := []string{"book.json", "./book.json", "../here/book.json", "here/book.json", "/"}
	// one task: everything it can write, everywhere
	for n := range payloads {
		for _, s := range [][2]int{{n, -1}, {-1, n}, {n, n}, {n, 2}, {1, n}} {
			for _, status := range []int{0, 3} {
				for fi, f := range flags {
					for ai, at := range places {
						for _, k := range []int{0, 1, 2, 3} {
							if !cases.Thorough && (fi > 2 && ai > 0 || k > 1 && (fi > 0 || ai > 0)) {
								continue
							}
							out = append(out, passing{tasks: []writing{sh("t", s[0], s[1], status)}, flags: f, at: at, debug: k&1 != 0, file: k&2 != 0})
						}
					}
				}
			}
		}
	}
	// two and three after another, on one or two targets
	some := [][2]int{{1, -1}, {2, -1}, {-1, 1}, {4, 2}, {3, 3}, {10, -1}, {-1, 11}}
	for ia, a := range some {
		for ib, b := range some {
			for _, u := range []string{"t", "u"} {
				for fail := 0; fail < 3; fail++ {
					for _, f := range flags[:3] {
						status := func(i int) int {
							if i == fail {
								return 1
							}
							return 0
						}
						two := []writing{sh("t", a[0], a[1], status(1)), sh(u, b[0], b[1], status(2))}
						out = append(out, passing{tasks: two, flags: f, at: "book.json"})
						if f == nil && (cases.Thorough || ia < 4 && ib < 4) {
							for _, c := range some {
								for _, v := range []string{"t", "u"} {
									out = append(out, passing{tasks: append(append([]writing{}, two...), sh(v, c[0], c[1], 0)), at: "../here/book.json"})
								}
							}
						}
					}
				}
			}
		}
	}
	// messages
	for _, m := range []string{"hello", "100% of \"it\" <&>", "\u00e9\u4e2d"} {
		for k := 1; k < 8; k++ {
			for _, f := range flags {
				for _, fail := range []int{-1, 1} {
					var tasks []writing
					for i := 0; i < 3; i++ {
						t := sh([]string{"t", "u", "t"}[i], []int{2, 4, 5}[i], -1, 0)
						if i == fail {
							t.status = 2
						}
						if k>>i&1 != 0 {
							t.message = fmt.Sprint(m, " ", i, "!")
						}
						tasks = append(tasks, t)
					}
					out = append(out, passing{tasks: tasks, flags: f, at: "book.json"})
				}
			}
		}
	}
	// tasks that read
	for _, n := range []int{-1, 1, 11} {
		for _, f := range flags {
			t := sh("t", n, -1, 0)
			t.reads = true
			out = append(out, passing{tasks: []writing{t}, flags: f, at: "book.json"},
				passing{tasks: []writing{t, sh("u", 2, 2, 0), t}, flags: f, at: "here/book.json"})
		}
	}
	// a demonstration target among shells
	ops := []writing{{target: "d", op: "echo"}, {target: "d", op: "rev"}, {target: "d", op: "rot13"}, {target: "d", op: "fail"}, sh("t", 2, 1, 0), sh("t", 1, -1, 4)}
	depth := 4
	if cases.Thorough {
		depth = 5
	}
	var chain func(l []writing)
	chain = func(l []writing) {
		if len(l) > 0 {
			out = append(out, passing{tasks: append([]writing{}, l...), at: "book.json"})
			if len(l) < 4 && l[len(l)-1].op == "echo" {
				for n := 1; n < len(demoTexts); n++ {
					out = append(out, passing{tasks: append([]writing{}, l...), at: "book.json", text: n})
				}
			}
		}
		if len(l) == depth {
			return
		}
		if n := len(l); n > 0 && (l[n-1].op == "fail" || l[n-1].status != 0) && n > 1 {
			return
		}
		for _, o := range ops {
			chain(append(l, o))
		}
	}
	chain(nil)
	// tasks without an order, on up to three targets
	for n := 1; n <= 6; n++ {
		k := 1
		for i := 0; i < n; i++ {
			k *= 3
		}
		for x := 0; x < k; x++ {
			var tasks []writing
			for i, y := 0, x; i < n; i, y = i+1, y/3 {
				tasks = append(tasks, sh([]string{"t", "u", "v"}[y%3], []int{2, 4, 8, 9, 2, 3}[i], -1, 0))
			}
			if n < 5 || cases.Thorough || x%5 == 0 {
				out = append(out, passing{tasks: tasks, at: "book.json", loose: true})
			}
		}
	}
	return
}

func casesC35() (out []cases.Case) {
	all := passings()
	const size = 40
	for i := 0; i < len(all); i += size {
		part := all[i:min(i+size, len(all))]
		out = append(out, cases.Case{Name: fmt.Sprintf("runs from %d", i), Run: func(r *result) {
			w, err := program()
			if w == nil {
				r.Broken = err
				return
			}
			for _, p := range part {
				p.run(r, w)
			}
		}})
	}
	return
}
