//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/sjansen/pgutil/internal/cli"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- C12

// A broken writer takes a number of bytes, or of calls.
type broken struct {
	got          bytes.Buffer
	bytes, calls int // -1: any number
	keepFailing  bool
	failed       bool
}

var errBroken = errors.New("the output is broken")

func (b *broken) Write(p []byte) (int, error) {
	if b.failed && b.keepFailing {
		return 0, errBroken
	}
	if b.calls == 0 {
		b.failed = true
		b.calls = -1
		return 0, errBroken
	}
	if b.calls > 0 {
		b.calls--
	}
	if b.bytes >= 0 && b.got.Len()+len(p) > b.bytes && !b.failed {
		n := b.bytes - b.got.Len()
		b.got.Write(p[:n])
		b.failed = true
		return n, errBroken
	}
	return b.got.Write(p)
}

type line struct {
	name string
	args []string
	out  bool // it can write to a file
}

func commandLines(dir string) []line {
	small := write("c12/small.jsonnet", `{targets: {d: {class: "demo"}}, tasks: {a: {target: "d/echo"}}}`)
	large := `{targets: {d: {class: "demo", config: {string: "text"}}, e: {class: "demo"}}, tasks: {["t" + i]: {target: "d/echo", after: ["t" + j for j in std.range(0, i - 1)]} for i in std.range(0, 30)}}`
	big := write("c12/big.jsonnet", large)
	echo := write("c12/echo.jsonnet", `{targets: {d: {class: "demo", config: {string: "some text"}}}, tasks: {a: {target: "d/echo"}, b: {target: "d/rev", after: ["a"]}, c: {target: "d/echo", after: ["b"]}}}`)
	shell := write("c12/shell.jsonnet", `{targets: {s: {class: "sh"}}, tasks: {a: {target: "s", config: {args: ["printf", "%s", "out"]}}, b: {target: "s", after: ["a"], config: {args: ["./twice"]}}}}`)
	huge := write("c12/huge.jsonnet", `{targets: {d: {class: "demo"}, e: {class: "demo"}}, tasks: {["t" + i]: {target: "d/echo", message: "some more of it", after: if i == 0 then [] else ["t" + (i - 1)]} for i in std.range(0, 2500)}}`)
	talk := write("c12/talk.jsonnet", `{targets: {d: {class: "demo", config: {string: std.join("", ["many words " for i in std.range(1, 4000)])}}}, tasks: {a: {target: "d/echo"}, b: {target: "d/rev", after: ["a"]}, c: {target: "d/echo", after: ["b"]}}}`)
	cases.Must(os.WriteFile(filepath.Join(filepath.Dir(shell), "twice"), []byte("#!/bin/sh\necho one\nsleep 0.01\necho two\n"), 0o755))
	wordy := write("c12/wordy.jsonnet", `{targets: {s: {class: "sh"}}, tasks: {a: {target: "s", config: {args: ["seq", "15000"]}}}}`)
	db := []string{"-h", dir, "-p", "5998", "-U", "u", "-d", "d", "--sslmode", "disable"}
	return []line{
		{"list", []string{"runbook", "list", small}, false},
		{"list of many", []string{"runbook", "ls", big}, false},
		{"dot", []string{"runbook", "dot", small}, true},
		{"dot of many", []string{"runbook", "dot", big, "--splines", "line"}, true},
		{"eval", []string{"runbook", "eval", small}, true},
		{"eval of many", []string{"runbook", "eval", big, "--color", "true"}, true},
		{"run", []string{"runbook", "run", echo}, false},
		{"run a shell", []string{"runbook", "run", shell}, false},
		{"version", []string{"version"}, false},
		{"version in detail", []string{"version", "--long"}, false},
		{"ping", append([]string{"ping"}, db...), false},
		{"inspect", append([]string{"inspect"}, db...), true},
		{"inspect sorted", append(append([]string{"inspect"}, db...), "--sort-columns", "--sort-indexes", "--sort-check-constraints"), true},
		{"list of thousands", []string{"runbook", "list", huge}, false},
		{"dot of thousands", []string{"runbook", "dot", huge}, true},
		{"eval of thousands", []string{"runbook", "eval", huge}, true},
		{"run with long texts", []string{"runbook", "run", talk}, false},
		{"run with a long output", []string{"runbook", "run", wordy}, false},
		{"inspect a large database", append([]string{"inspect"}, db...), true},
	}
}

// largeDatabase has a description of more than 200 kilobytes.
func largeDatabase() *pgsrv.Catalog {
	c := pgsrv.Sample()
	text := strings.Repeat("long ", 16000)
	for i := range c.Schemas {
		c.Schemas[i].Comment = &text
	}
	for i := 0; i < 4; i++ {
		t := pgsrv.Table{Schema: "public", Name: fmt.Sprintf("large%03d", i), Owner: "o"}
		for j := 0; j < 12; j++ {
			t.Columns = append(t.Columns, pgsrv.Column{Name: fmt.Sprintf("column%02d", j), Type: "text"})
		}
		c.Tables = append(c.Tables, t)
	}
	return c
}

func serve(dir string, large bool) *pgsrv.Server {
	p := filepath.Join(dir, ".s.PGSQL.5998")
	os.Remove(p)
	l, err := net.Listen("unix", p)
	cases.Must(err)
	return pgsrv.Serve(l, func(int) pgsrv.Plan {
		if large {
			return pgsrv.Plan{DB: largeDatabase()}
		}
		return pgsrv.Plan{DB: pgsrv.Sample()}
	})
}

func runLine(out interface{ Write([]byte) (int, error) }, args []string) (err error, problem string) {
	problem = cases.Guarded(func() {
		cmd, perr := cli.RegisterCommands("test").Parse(args)
		if perr != nil {
			err = perr
			return
		}
		var e bytes.Buffer
		err = cmd(out, &e)
	})
	return
}

func casesC12() (out []cases.Case) {
	n := len(commandLines(cases.Tmp))
	for i := 0; i < n; i++ {
		name := commandLines(cases.Tmp)[i].name
		for part := 0; part < parts; part++ {
			part := part
			out = append(out, cases.Case{Name: fmt.Sprintf("%s, part %d", name, part), Run: func(r *result) { faults(r, i, part) }})
		}
	}
	return
}

const parts = 6 // of the faults of a command line

func faults(r *result, i, part int) {
	dir, err := os.MkdirTemp("/tmp", "verif-c12-") // short, for the socket
	cases.Must(err)
	defer os.RemoveAll(dir)
	l := commandLines(dir)[i]
	s := serve(dir, l.name == "inspect a large database")
	defer s.Close()
	// unharmed
	whole := &broken{bytes: -1, calls: -1}
	calls := &counter{}
	err, problem := runLine(whole, l.args)
	if err != nil || problem != "" || whole.got.Len() == 0 {
		r.Add(l.name, "%s fails although nothing is wrong: %v %s", l.name, err, problem)
		return
	}
	runLine(calls, l.args)
	size := whole.got.Len()
	r.State()
	try := func(w *broken, how string) {
		err, problem := runLine(w, l.args)
		r.State()
		r.Count("transitions", 1)
		if problem != "" {
			r.Add(l.name+" "+how, "%s with an output %s: %s", l.name, how, problem)
			return
		}
		if !w.failed {
			return // less was written this time
		}
		r.Count("faults", 1)
		if err == nil {
			r.Add(l.name+" "+how, "%s with an output %s: no error, %d of %d bytes written", l.name, how, w.got.Len(), size)
		}
	}
	step := 1
	if strings.Contains(l.name, "shell") && !cases.Thorough {
		step = 2
	}
	var places []int
	for b := 0; b < size; b += step {
		if size > 20000 {
			// around what buffers may hold, and at regular distances
			near := func(unit int) bool { m := (b + 2) % unit; return m < 5 }
			far := size/40 + 1
			if cases.Thorough {
				far = size/1000 + 1
			}
			if b > 40 && b < size-40 && b%far != 0 && !near(32768) && !(b < 20000 && (near(512) && b < 1100 || near(4096))) {
				continue
			}
		} else if !cases.Thorough && b > 300 && b%7 != 0 && b != size-1 {
			continue
		}
		places = append(places, b)
	}
	for i, b := range places {
		if i%parts != part {
			continue
		}
		for _, k := range []bool{true, false} {
			try(&broken{bytes: b, calls: -1, keepFailing: k}, fmt.Sprintf("that fails after %d bytes (for good: %v)", b, k))
		}
	}
	for c := part; c < calls.n; c += parts {
		if calls.n > 300 && c > 30 && c < calls.n-30 && c/parts%(calls.n/100) != 0 && !cases.Thorough {
			continue
		}
		for _, k := range []bool{true, false} {
			try(&broken{bytes: -1, calls: c, keepFailing: k}, fmt.Sprintf("that fails at call %d (for good: %v)", c+1, k))
		}
	}
	// to files
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	cases.Must(err)
	defer full.Close()
	err, problem = runLine(full, l.args)
	r.State()
	r.Count("faults", 1)
	if err == nil || problem != "" {
		r.Add(l.name+" full", "%s with a full device as its output: %v %s", l.name, err, problem)
	}
	if !l.out {
		return
	}
	outFile := filepath.Join(dir, "out")
	// a file that can not grow beyond a size
	for i, b := range places {
		if i%parts != part {
			continue
		}
		for _, old := range []bool{false, true} {
			os.Remove(outFile)
			if old {
				cases.Must(os.WriteFile(outFile, bytes.Repeat([]byte("x"), size/2), 0o644))
			}
			var err error
			var problem string
			w := &broken{bytes: -1, calls: -1}
			limited(b, func() { err, problem = runLine(w, append(append([]string{}, l.args...), "-o", outFile)) })
			r.State()
			r.Count("faults", 1)
			r.Count("transitions", 1)
			info, serr := os.Stat(outFile)
			if serr != nil || info.Size() > int64(b) && !old {
				r.Broken = fmt.Sprintf("the limit of %d bytes has no effect: %v", b, serr)
				return
			}
			if err == nil || problem != "" {
				r.Add(fmt.Sprintf("%s to a file of at most %d bytes", l.name, b), "%s to a file that can not grow beyond %d of %d bytes (there was one: %v): %v %s", l.name, b, size, old, err, problem)
			}
		}
	}
	os.Remove(outFile)
	link := filepath.Join(dir, "link")
	cases.Must(os.Symlink("/dev/full", link))
	ro := filepath.Join(dir, "directory")
	cases.Must(os.Mkdir(ro, 0o755))
	long := filepath.Join(dir, "longer")
	cases.Must(os.WriteFile(long, bytes.Repeat([]byte("x"), size+1000), 0o644))
	for _, o := range []struct {
		to    string
		fails bool
	}{{outFile, false}, {long, false}, {"/dev/full", true}, {link, true}, {ro, true}, {filepath.Join(dir, "missing", "file"), true}, {filepath.Join(outFile, "x"), true}} {
		for _, a := range [][]string{{"-o", o.to}, {"--output=" + o.to}} {
			w := &broken{bytes: -1, calls: -1}
			err, problem = runLine(w, append(append([]string{}, l.args...), a...))
			r.State()
			r.Count("transitions", 1)
			if o.fails {
				r.Count("faults", 1)
			}
			how := fmt.Sprintf("%s to %s", l.name, strings.TrimPrefix(o.to, dir))
			if problem != "" || o.fails != (err != nil) {
				r.Add(how, "%s: %v %s", how, err, problem)
				continue
			}
			if w.got.Len() > 0 {
				r.Add(how+": output", "%s: it is written to standard output as well", how)
			}
			if o.fails {
				continue
			}
			b, err := os.ReadFile(o.to)
			if err != nil || !sameOutput(b, whole.got.Bytes()) {
				r.Add(how+": content", "%s: the file holds something else: %v %.200q", how, err, b)
			}
		}
	}
}

// limited runs f while no file can grow beyond a size.
func limited(size int, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	cases.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	cases.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size), Max: old.Max}))
	defer func() { cases.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

// sameOutput ignores colours and the order of lines.
func sameOutput(a, b []byte) bool {
	return len(colours.ReplaceAll(a, nil)) == len(colours.ReplaceAll(b, nil))
}

type counter struct{ n int }

func (c *counter) Write(p []byte) (int, error) {
	c.n++
	return len(p), nil
}
