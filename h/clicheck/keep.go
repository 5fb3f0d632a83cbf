//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- C34: which files a command changes

// A place is a small directory with a runbook in it.
type place struct {
	book string // name of the runbook
	text string
	auto string // what is at the name that -O derives: nothing, file, link, hard, dir, other
}

// derived is the name that -O stands for.
func (p place) derived() string {
	return strings.TrimSuffix(p.book, filepath.Ext(p.book)) + ".dot"
}

const keptLib = "{ word: 'imported' }\n"

var keptOld = strings.Repeat("some old content that is longer than any result\n", 4000)

// make creates the place in an empty directory.
func (p place) make(dir string) {
	cases.Must(os.RemoveAll(dir))
	for _, d := range []string{"sub", "d.ir", "empty"} {
		cases.Must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	in := func(f string) string { return filepath.Join(dir, f) }
	put := func(f, text string, mode os.FileMode) { cases.Must(os.WriteFile(in(f), []byte(text), mode)) }
	put(p.book, p.text, 0o640)
	put(filepath.Join(filepath.Dir(p.book), "lib.libsonnet"), keptLib, 0o644)
	put("old", keptOld, 0o600)
	put("short", "s", 0o600)
	put("dbg", "old log\n", 0o600)
	cases.Must(os.Symlink("old", in("link")))
	cases.Must(os.Symlink("made", in("dangling")))
	cases.Must(os.Symlink(p.book, in("blink")))
	cases.Must(os.Link(in(p.book), in("hard")))
	if d := p.derived(); d != p.book {
		switch p.auto {
		case "file":
			put(d, keptOld, 0o600)
		case "link":
			cases.Must(os.Symlink(filepath.Base(p.book), in(d)))
		case "hard":
			cases.Must(os.Link(in(p.book), in(d)))
		case "dir":
			cases.Must(os.Mkdir(in(d), 0o755))
		case "other":
			cases.Must(os.Symlink(in("old"), in(d)))
		}
	}
}

// look describes everything in a directory.
func look(dir string) map[string]string {
	m := map[string]string{}
	cases.Must(filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		s := info.Mode().String()
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			t, err := os.Readlink(path)
			cases.Must(err)
			s += " " + t
		case info.Mode().IsRegular():
			b, err := os.ReadFile(path)
			cases.Must(err)
			s += " " + string(b)
		}
		m[rel] = s
		return nil
	}))
	return m
}

// A keeping is a command in a place.
type keeping struct {
	place place
	toks  []string // without the output
	out   string   // "" for none, "-O", or a name; BOOK is the runbook, DIR the directory
	both  bool     // -O as well as the name
	debug string
	plan  *pgsrv.Plan
}

func (k keeping) name() string {
	s := fmt.Sprintf("%s of %s (%q), output %q", strings.Join(k.toks, " "), k.place.book, k.place.text, k.out)
	if k.both {
		s += " and -O"
	}
	if k.out == "-O" {
		s += " with " + k.place.auto
	}
	if k.debug != "" {
		s += ", debug log " + k.debug
	}
	if k.plan != nil {
		s += fmt.Sprintf(", %s at message %d %s", k.plan.FaultKind, k.plan.FaultAt, k.plan.Drop+k.plan.Reject)
	}
	return s
}

func (k keeping) run(r *result, w *world) {
	for v, x := range map[string]string{"PGHOST": "127.0.0.1", "PGPORT": w.real("P1"), "PGUSER": "u", "PGDATABASE": "d", "PGSSLMODE": "disable"} {
		os.Setenv(v, x)
	}
	w.mu.Lock()
	w.plan2 = nil
	if k.plan != nil {
		w.plan2 = func() (pgsrv.Plan, bool) { return *k.plan, true }
	}
	w.mu.Unlock()
	dir := filepath.Join(scratch(), "kept")
	was := w.dir
	w.dir = dir
	defer func() {
		w.mu.Lock()
		w.plan2 = nil
		w.mu.Unlock()
		w.dir = was
		cases.Must(os.RemoveAll(dir))
	}()
	real := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "BOOK", k.place.book), "DIR", dir)
	}
	args := append([]string{}, k.toks...)
	for i, a := range args {
		args[i] = real(a)
	}
	execute := func(args []string) (so, se bytes.Buffer, err error, problem string) {
		problem = cases.Guarded(func() { err = w.process(args, &so, &se) })
		so = *bytes.NewBufferString(logLine.ReplaceAllString(so.String(), ""))
		r.State()
		r.Count("transitions", len(args))
		return
	}
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		if len(m) > 300 {
			m = m[:300]
		}
		r.Add(k.name()+": "+m, "%s: %s", k.name(), m)
	}
	// what it says when nothing but the standard output is named
	k.place.make(dir)
	before := look(dir)
	ref, _, refErr, problem := execute(args)
	if problem != "" {
		bad("%s", problem)
		return
	}
	after := look(dir)
	changed := func(allowed map[string]bool) {
		var names []string
		for f := range before {
			names = append(names, f)
		}
		for f := range after {
			if _, ok := before[f]; !ok {
				names = append(names, f)
			}
		}
		sort.Strings(names)
		for _, f := range names {
			b, had := before[f]
			a, has := after[f]
			if allowed[f] || a == b && had == has {
				continue
			}
			switch {
			case !had:
				bad("it makes %s", f)
			case !has:
				bad("it removes %s", f)
			default:
				bad("it changes %s: it was %d bytes and is %d: %.60q", f, len(b), len(a), a)
			}
		}
	}
	changed(nil)
	if k.out == "" && k.debug == "" {
		return
	}
	// the same with an output
	k.place.make(dir)
	before = look(dir)
	dst := ""
	switch {
	case k.out == "-O":
		args = append(args, "-O")
		dst = filepath.Join(dir, k.place.derived())
	case k.out != "":
		args = append(args, "--output="+real(k.out))
		dst = real(k.out)
		if !filepath.IsAbs(dst) {
			dst = filepath.Join(dir, dst)
		}
		if k.both {
			args = append(args, "-O")
		}
	}
	if k.debug != "" {
		args = append(args, "--debug="+k.debug)
	}
	own := false // the output is the runbook
	possible := true
	allowed := map[string]bool{}
	if dst != "" {
		info, err := os.Stat(dst)
		if err == nil {
			b, e := os.Stat(filepath.Join(dir, k.place.book))
			cases.Must(e)
			own = os.SameFile(info, b)
			possible = !info.IsDir()
		}
		for f := range before {
			if x, e := os.Stat(filepath.Join(dir, f)); err == nil && e == nil && os.SameFile(x, info) {
				allowed[f] = true
			}
		}
		if _, err := os.Stat(filepath.Dir(dst)); err != nil {
			possible = false
		}
		if rel, err := filepath.Rel(dir, dst); err == nil {
			allowed[rel] = true
			if rel == "dangling" {
				allowed["made"] = true
			}
		}
	}
	so, _, err, problem := execute(args)
	if problem != "" {
		bad("%s", problem)
		return
	}
	after = look(dir)
	if k.debug != "" {
		had := strings.TrimPrefix(before[k.debug], "-rw------- ")
		_, now, _ := strings.Cut(after[k.debug], " ")
		if !strings.HasPrefix(now, had) {
			bad("it changes what was in the debug log")
		}
		if a, ok := after[k.debug]; ok {
			before[k.debug] = a
		} else if _, ok := before[k.debug]; ok {
			bad("it removes the debug log")
		}
	}
	if k.out == "" {
		changed(nil)
		return
	}
	if k.out == "-O" && own {
		r.Count("outputs that are the runbook", 1)
		changed(nil)
		return
	}
	if err != nil {
		r.Count("failures", 1)
		changed(nil)
		if refErr == nil && possible && !own {
			bad("it fails: %v", err)
		}
		return
	}
	changed(allowed)
	switch {
	case refErr != nil:
		bad("it succeeds, but not without an output: %v", refErr)
	case !possible:
		bad("it succeeds")
	default:
		r.Count("results in a file", 1)
		if so.Len() > 0 {
			bad("it prints %q", so.String())
		}
		b, err := os.ReadFile(dst)
		if err != nil {
			bad("%v", err)
		} else if anyOrder(string(b)) != anyOrder(ref.String()) {
			bad("%d bytes are written instead of %d: %.80q", len(b), ref.Len(), b)
		}
	}
}

// Runbooks of the three kinds: all is well, wrong from the start, wrong at the
// end. The tasks of the first would leave a file behind.
func keptBooks() []string {
	sh := func(rest string) string {
		return `{targets: {t: {class: "sh", config: {pwd: "."}}}, tasks: {x: {target: "t", config: {args: ["touch", "ran"]}}` + rest + `}}`
	}
	return []string{
		fmt.Sprintf(shBook, shTask("x", "", "touch", "ran")+","+shTask("y", "x", "sh", "-c", "touch ran2")),
		`{"targets": {"t": {"class": "demo", "config": {"string": "Uryyb"}}}, "tasks": {"x": {"target": "t/rot13"}, "y": {"target": "t/echo", "after": ["x"]}}}`,
		`local l = import 'lib.libsonnet'; {targets: {[l.word]: {class: "demo", config: {string: l.word}}}, tasks: {x: {target: l.word + "/echo"}}}`,
		`local l = importstr 'lib.libsonnet'; {targets: {t: {class: "demo", config: {string: l}}}, tasks: {x: {target: "t/echo"}}}`,
		`{"targets": {}, "tasks": {}}`,
		"", "{", "local l = import 'nothing.libsonnet'; {targets: {}, tasks: {}}", "{targets: {}, tasks: {}, x: error 'no'}", "import 'BOOK'",
		sh(`, y: {target: "t"}`), sh(`, y: {target: "none", config: {args: ["true"]}}`), sh(`, y: {target: "t", config: {args: 1}}`),
		sh(`, y: {target: "t", after: ["z"], config: {args: ["touch", "ran"]}}`),
		sh(`, y: {target: "t", after: ["z"], config: {args: ["touch", "ran"]}}, z: {target: "t", after: ["y"], config: {args: ["touch", "ran"]}}`),
		`{"targets": {"t": {"class": "none"}}, "tasks": {}}`,
		`{"targets": {"p": {"class": "pg", "config": {"host": "127.0.0.3", "port": 1, "sslmode": "disable"}}}, "tasks": {"x": {"target": "p", "config": {"sql": "select 1"}}}}`,
	}
}

func keepings() (out []keeping) {
	names := []string{"book.jsonnet", "noext", "x.dot", "d.ir/noext", "sub/v1.2.json"}
	outs := []string{"-O", "new", "sub/new", "old", "short", "link", "dangling", "BOOK", "./BOOK", "DIR/BOOK", "sub/../BOOK", "hard", "blink", "sub", "none/x", "empty/x", "lib.libsonnet", "dbg"}
	autos := []string{"nothing", "file", "link", "hard", "dir", "other"}
	debugs := []string{""}
	if cases.Thorough {
		debugs = []string{"", "dbg", "newlog"}
	}
	for _, text := range keptBooks() {
		for _, book := range names {
			text := strings.ReplaceAll(text, "BOOK", filepath.Base(book))
			p := place{book: book, text: text, auto: "nothing"}
			runs := !strings.Contains(text, `"touch"`)
			for _, c := range []string{"list", "ls", "dot", "eval", "run"} {
				if c == "run" && !runs {
					continue // its tasks are asked to make files
				}
				for _, d := range []string{"", "dbg", "newlog"} {
					out = append(out, keeping{place: p, toks: []string{"runbook", c, book}, debug: d})
				}
			}
			for _, c := range []string{"dot", "eval"} {
				for _, o := range outs {
					as := autos
					if o == "-O" && c == "eval" {
						continue
					}
					if o != "-O" {
						as = autos[:1]
					}
					for _, a := range as {
						if a != "nothing" && p.derived() == p.book {
							continue
						}
						p := p
						p.auto = a
						for _, d := range debugs {
							if d == "dbg" && o == "dbg" {
								continue
							}
							out = append(out, keeping{place: p, toks: []string{"runbook", c, book}, out: o, debug: d})
							if c == "dot" && o != "-O" {
								out = append(out, keeping{place: p, toks: []string{"runbook", c, book}, out: o, both: true, debug: d})
							}
						}
					}
				}
			}
		}
	}
	plans := []pgsrv.Plan{{DB: pgsrv.Sample()}, {DB: pgsrv.Sample(), Drop: "accept"}, {DB: pgsrv.Sample(), Reject: "28P01"}}
	for n := 1; n <= 40; n++ {
		if !cases.Thorough && n > 8 && n%5 != 0 {
			continue
		}
		for _, kind := range []string{"close", "error"} {
			plans = append(plans, pgsrv.Plan{DB: pgsrv.Sample(), FaultAt: n, FaultKind: kind, FaultCode: "XX000"})
		}
	}
	p := place{book: "book.jsonnet", text: "{}", auto: "nothing"}
	for i := range plans {
		out = append(out, keeping{place: p, toks: []string{"ping"}, plan: &plans[i], debug: "dbg"})
		for _, o := range []string{"", "new", "old", "short", "link", "dangling", "sub", "none/x", "BOOK"} {
			out = append(out, keeping{place: p, toks: []string{"inspect"}, plan: &plans[i], out: o})
		}
		out = append(out, keeping{place: p, toks: []string{"inspect"}, plan: &plans[i], out: "old", debug: "newlog"})
	}
	for _, d := range []string{"", "dbg", "newlog"} {
		out = append(out, keeping{place: p, toks: []string{"version"}, debug: d}, keeping{place: p, toks: []string{"version", "--long"}, debug: d})
		for _, toks := range [][]string{{}, {"none"}, {"runbook"}, {"runbook", "dot"}, {"runbook", "run", "nothing"}, {"runbook", "dot", "nothing.json", "-O"}, {"ping", "--port=x", "--host=old"}, {"inspect", "--no"}, {"runbook", "eval", "old"}} {
			out = append(out, keeping{place: p, toks: toks, debug: d})
		}
	}
	for _, toks := range [][]string{{"inspect", "--port=x"}, {"inspect", "surplus"}, {"runbook", "dot"}, {"runbook", "eval", "--color=no", "book.jsonnet"}, {"runbook", "dot", "nothing.json"}, {"runbook", "dot", "--splines=no", "book.jsonnet"}} {
		for _, o := range []string{"old", "new", "BOOK"} {
			out = append(out, keeping{place: p, toks: toks, out: o})
		}
	}
	return
}

func casesC34() (out []cases.Case) {
	all := keepings()
	const size = 25
	for i := 0; i < len(all); i += size {
		part := all[i:min(i+size, len(all))]
		out = append(out, cases.Case{Name: fmt.Sprintf("from %d: %s", i, part[0].name()), Run: func(r *result) {
			w, err := program()
			if w == nil {
				r.Broken = err
				return
			}
			for _, k := range part {
				k.run(r, w)
			}
		}})
	}
	return
}
