//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- C30: the program as a process

// process executes the program; a status other than 0 is an error.
func (w *world) process(args []string, so, se io.Writer) error {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, w.program, args...)
	c.Stdout, c.Stderr, c.Dir = so, se, w.dir
	c.WaitDelay = 5 * time.Second
	err := c.Run()
	if ctx.Err() != nil {
		panic("it does not end (60 s)")
	}
	if err != nil {
		if b, ok := se.(*bytes.Buffer); ok && bytes.Contains(b.Bytes(), []byte("\ngoroutine ")) {
			panic("the program crashes: " + strings.SplitN(b.String(), "\n", 2)[0])
		}
	}
	return err
}

func program() (*world, string) {
	w, err := getWorld()
	if w != nil {
		w.program = filepath.Join(cases.Tmp, "pgutil")
		if _, e := os.Stat(w.program); e != nil {
			return nil, e.Error()
		}
	}
	return w, err
}

// A deed is a command line in a world where it can be done, or not.
type deed struct {
	name   string
	toks   []string
	plan   func() pgsrv.Plan
	stdout string // a file, "" is a buffer
	files  map[string]string
	works  bool
}

func (d deed) run(r *result, w *world) {
	for k, v := range map[string]string{"PGHOST": "127.0.0.1", "PGPORT": w.real("P1"), "PGUSER": "u", "PGDATABASE": "d", "PGSSLMODE": "disable"} {
		os.Setenv(k, v)
	}
	w.mu.Lock()
	w.plan2 = nil
	if d.plan != nil {
		w.plan2 = func() (pgsrv.Plan, bool) { return d.plan(), true }
	}
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.plan2 = nil
		w.mu.Unlock()
		for f := range d.files {
			os.Remove(f)
		}
	}()
	for f, text := range d.files {
		cases.Must(os.WriteFile(f, []byte(text), 0o644))
	}
	var so, se bytes.Buffer
	var out io.Writer = &so
	if d.stdout != "" {
		f, err := os.OpenFile(d.stdout, os.O_WRONLY, 0)
		if err != nil {
			r.Count("not available: "+d.stdout, 1)
			return
		}
		defer f.Close()
		out = f
	}
	var args []string
	for _, t := range d.toks {
		args = append(args, w.real(t))
	}
	var err error
	problem := cases.Guarded(func() { err = w.process(args, out, &se) })
	r.State()
	r.Count("transitions", len(d.toks))
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		r.Add(d.name+": "+m, "%s: %q: %s", d.name, d.toks, m)
	}
	var exit *exec.ExitError
	switch {
	case problem != "":
		bad("%s", problem)
	case err != nil && !errors.As(err, &exit):
		r.Broken = err.Error()
	case d.works && err != nil:
		bad("%v: %q", err, so.String()+se.String())
	case !d.works && err == nil:
		bad("the status is 0")
	case !d.works && d.stdout == "" && so.Len()+se.Len() == 0:
		bad("it fails and says nothing")
	}
}

const shBook = `{"targets": {"t": {"class": "sh"}}, "tasks": {%s}}`

func shTask(name, after string, args ...string) string {
	a := ""
	if after != "" {
		a = fmt.Sprintf(`"after": [%q], `, after)
	}
	return fmt.Sprintf(`%q: {%s"target": "t", "config": {"args": [%s]}}`, name, a, `"`+strings.Join(args, `", "`)+`"`)
}

func deeds() (out []deed) {
	db := func(f func(p *pgsrv.Plan)) func() pgsrv.Plan {
		return func() pgsrv.Plan {
			p := pgsrv.Plan{DB: pgsrv.Sample()}
			f(&p)
			return p
		}
	}
	conn := []string{"--host=127.0.0.1", "--port=P1", "--sslmode=disable"}
	with := func(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }
	for _, c := range []string{"ping", "inspect"} {
		toks := with([]string{c}, conn...)
		add := func(name string, works bool, f func(p *pgsrv.Plan)) {
			out = append(out, deed{name: c + ", " + name, toks: toks, plan: db(f), works: works})
		}
		add("all is well", true, func(p *pgsrv.Plan) {})
		add("closed at once", false, func(p *pgsrv.Plan) { p.Drop = "accept" })
		add("closed at the start", false, func(p *pgsrv.Plan) { p.Drop = "startup" })
		for _, code := range []string{"28P01", "3D000", "53300", "57P03", "28000"} {
			code := code
			add("rejected with "+code, false, func(p *pgsrv.Plan) { p.Reject = code })
		}
		add("a password is needed", false, func(p *pgsrv.Plan) { p.Auth, p.Password = "md5", "secret" })
		for n := 1; n <= 40; n++ {
			for _, k := range []string{"close", "fatal"} {
				n, k := n, k
				// the end of the session in the middle of the work; all the other faults are C13's and C15's
				if n <= 6 || n%7 == 0 {
					if n > 30 && c == "ping" {
						continue
					}
					if n == 6 {
						continue
					}
					add(fmt.Sprintf("%s at message %d", k, n), false, func(p *pgsrv.Plan) { p.FaultAt, p.FaultKind, p.FaultCode = n, k, "XX000" })
				}
			}
		}
		out = append(out,
			deed{name: c + ", nothing listens", toks: []string{c, "--host=127.0.0.3", "--port=P1", "--sslmode=disable"}},
			deed{name: c + ", no such socket", toks: []string{c, "--host=/nonexistent", "--port=P1"}},
			deed{name: c + ", TLS required", toks: []string{c, "--host=127.0.0.1", "--port=P1", "--sslmode=require"}},
			deed{name: c + ", full device", toks: toks, stdout: "/dev/full"},
			deed{name: c + ", full device, verbose", toks: with(toks, "-vv"), stdout: "/dev/full"},
			deed{name: c + ", null device", toks: toks, stdout: "/dev/null", works: true})
	}
	for _, o := range []string{"none/out", "sub", "a.jsonnet/x", "/dev/full", "."} {
		out = append(out,
			deed{name: "inspect to " + o, toks: with([]string{"inspect", "--output=" + o}, conn...)},
			deed{name: "dot to " + o, toks: []string{"runbook", "dot", "--output=" + o, "a.jsonnet"}},
			deed{name: "eval to " + o, toks: []string{"runbook", "eval", "--output=" + o, "a.jsonnet"}})
	}
	book := func(name, text string, works, shows bool) {
		f := map[string]string{"book.json": text}
		for _, c := range []string{"list", "ls", "dot", "eval"} {
			ok := shows
			out = append(out, deed{name: name + ", " + c, toks: []string{"runbook", c, "book.json"}, files: f, works: ok})
			out = append(out, deed{name: name + ", " + c + ", full device", toks: []string{"runbook", c, "book.json"}, files: f, stdout: "/dev/full"})
		}
		out = append(out, deed{name: name + ", run", toks: []string{"runbook", "run", "book.json"}, files: f, works: works})
		out = append(out, deed{name: name + ", run by default", toks: []string{"runbook", "book.json"}, files: f, works: works})
		out = append(out, deed{name: name + ", run, null device", toks: []string{"runbook", "-q", "book.json"}, files: f, works: works, stdout: "/dev/null"})
	}
	for code := 0; code < 256; code++ {
		works := code == 0
		f := map[string]string{"book.json": fmt.Sprintf(shBook, shTask("x", "", "sh", "-c", fmt.Sprintf("exit %d", code)))}
		out = append(out, deed{name: fmt.Sprintf("a task ends with %d", code), toks: []string{"runbook", "book.json"}, files: f, works: works})
	}
	book("no failure", fmt.Sprintf(shBook, shTask("x", "", "true")+","+shTask("y", "x", "true")), true, true)
	book("the first task fails", fmt.Sprintf(shBook, shTask("x", "", "false")+","+shTask("y", "x", "true")), false, true)
	book("the last task fails", fmt.Sprintf(shBook, shTask("x", "", "true")+","+shTask("y", "x", "false")), false, true)
	book("no such program", fmt.Sprintf(shBook, shTask("x", "", "no-such-program-here")), false, true)
	book("killed", fmt.Sprintf(shBook, shTask("x", "", "sh", "-c", "kill -9 $$")), false, true)
	book("a cycle", fmt.Sprintf(shBook, shTask("x", "y", "true")+","+shTask("y", "x", "true")), false, true)
	book("nothing connects", `{"targets": {"t": {"class": "pg", "config": {"host": "127.0.0.3", "port": 1, "sslmode": "disable"}}}, "tasks": {"x": {"target": "t", "config": {"sql": "select 1"}}}}`, false, true)
	for _, text := range []string{"", "{", "nonsense", "[]", `{"targets": {}, "tasks": {"x": {"target": "t"}}}`, `{"targets": {"t": {"class": "none"}}, "tasks": {}}`,
		fmt.Sprintf(shBook, `"x": {"target": "t", "config": {"args": 1}}`), fmt.Sprintf(shBook, `"x": {"target": "t", "after": ["z"], "config": {"args": ["true"]}}`)} {
		out = append(out, deed{name: fmt.Sprintf("%q, run", text), toks: []string{"runbook", "book.json"}, files: map[string]string{"book.json": text}})
		if strings.Contains(text, `"z"`) {
			continue // a list does not need the dependencies
		}
		out = append(out, deed{name: fmt.Sprintf("%q, list", text), toks: []string{"runbook", "list", "book.json"}, files: map[string]string{"book.json": text}})
	}
	for _, s := range []string{"", "/dev/null"} {
		out = append(out, deed{name: "version to " + s, toks: []string{"version"}, works: true, stdout: s}, deed{name: "long version to " + s, toks: []string{"version", "-l"}, works: true, stdout: s})
	}
	out = append(out, deed{name: "version, full device", toks: []string{"version"}, stdout: "/dev/full"}, deed{name: "long version, full device", toks: []string{"version", "--long"}, stdout: "/dev/full"})
	return
}

func casesC30() (out []cases.Case) {
	var all []line
	for _, vb := range verbs() {
		n := 1
		if cases.Thorough || vb.cmd != "inspect" {
			n = 2
		}
		all = append(all, valid(vb, n)...)
	}
	all = append(all, invalid()...)
	const size = 20
	for i := 0; i < len(all); i += size {
		part := all[i:min(i+size, len(all))]
		out = append(out, cases.Case{Name: fmt.Sprintf("lines from %d", i), Run: func(r *result) {
			w, err := program()
			if w == nil {
				r.Broken = err
				return
			}
			for _, l := range part {
				w.check(r, environments2[0], l)
			}
		}})
	}
	for _, d := range deeds() {
		d := d
		out = append(out, cases.Case{Name: d.name + " " + strings.Join(d.toks, " "), Run: func(r *result) {
			w, err := program()
			if w == nil {
				r.Broken = err
				return
			}
			d.run(r, w)
		}})
	}
	return
}
