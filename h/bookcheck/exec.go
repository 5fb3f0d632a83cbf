//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

// ---- C10

// What a program does in the end.
var endings = []struct {
	name, last string // last line of the script
	fails      bool
	starts     bool
}{
	{"exits with 0", "exit 0", false, true},
	{"ends", ":", false, true},
	{"exits with 1", "exit 1", true, true},
	{"exits with 2", "exit 2", true, true},
	{"exits with 255", "exit 255", true, true},
	{"is killed", "kill -KILL $$", true, true},
	{"is terminated", "kill -TERM $$", true, true},
	{"hangs up", "kill -HUP $$", true, true},
	{"can not be executed", "", true, false},
	{"is a directory", "", true, false},
	{"needs a missing interpreter", "", true, false},
	{"is missing", "", true, false},
	{"is empty", "", true, false},
}

// install makes program p that tells who it is, or a file that isn't one.
func install(p, who string, ending int) {
	cases.Must(os.MkdirAll(filepath.Dir(p), 0o755))
	os.RemoveAll(p)
	e := endings[ending]
	script := "#!/bin/sh\nprintf '%s\\0' '" + who + "' \"$(pwd -P)\" \"$@\"\nprintf 'err %s' '" + who + "' >&2\n" + e.last + "\n"
	mode := os.FileMode(0o755)
	switch e.name {
	case "can not be executed":
		mode = 0o644
	case "is a directory":
		cases.Must(os.Mkdir(p, 0o755))
		return
	case "needs a missing interpreter":
		script = "#!/nonexistent/interpreter\n"
	case "is missing":
		return
	case "is empty":
		script = ""
	}
	cases.Must(os.WriteFile(p, []byte(script), mode))
}

var argLists = [][]string{
	{},
	{"a b"},
	{"", "x", ""},
	{"$HOME", "*", "`id`"},
	{`"'\`, "é\n\t"},
	{"-n", "--", "-x=1"},
	{"./prog", "../prog", "~"},
	{"1", "2", "3", "4", "5", "6", "7", "8", "9", "10"},
	{strings.Repeat("long ", 3000)},
	{strings.Repeat("longer ", 17000), "x"},
	strings.Fields(strings.Repeat("many ", 2000)),
}

func casesC10() (out []cases.Case) {
	// which names of programs are acceptable
	out = append(out, cases.Case{Name: "names", Run: func(r *result) {
		names := []string{""}
		for n := 0; n < 5; n++ {
			for _, p := range names[:len(names):len(names)] {
				if len([]rune(p)) != n {
					continue
				}
				for _, c := range "a./~-é" {
					names = append(names, p+string(c))
				}
			}
		}
		for _, n := range names[1:] {
			want := !strings.Contains(n, "/") || strings.HasPrefix(n, "/") || strings.HasPrefix(n, "./") || strings.HasPrefix(n, "../")
			for _, rest := range [][]string{nil, {"b/c"}} {
				var err error
				p := cases.Guarded(func() { err = (&sh.Exec{Args: append([]string{n}, rest...)}).Check() })
				r.State()
				r.Count("transitions", 1)
				if p != "" || want != (err == nil) {
					r.Add(fmt.Sprintf("name %q", n), "the program %q is accepted: %v instead of %v %s", n, err == nil, want, p)
				}
			}
		}
		for _, a := range [][]string{nil, {}} {
			var err error
			if p := cases.Guarded(func() { err = (&sh.Exec{Args: a}).Check() }); p != "" || err == nil {
				r.Add("no program", "a task without a program is accepted %s", p)
			}
		}
	}})
	// running them: <tmp>/outer/base/book.jsonnet
	forms := []struct{ name, arg, path string }{
		{"by its name", "prog", "bin/prog"},
		{"by its path", "/ABS/outer/base/sub/prog", "outer/base/sub/prog"},
		{"from here", "./prog", "outer/base/prog"},
		{"from below", "./sub/prog", "outer/base/sub/prog"},
		{"from above", "../prog", "outer/prog"},
		{"from the side", "../side/prog", "outer/side/prog"},
		{"by a detour", "./sub/../prog", "outer/base/prog"},
	}
	all := []string{"bin/prog", "outer/base/prog", "outer/base/sub/prog", "outer/prog", "outer/side/prog", "prog", "elsewhere/prog", "elsewhere/sub/prog", "side/prog"}
	callers := []string{"outer/base", "outer", "", "elsewhere", "outer/base/sub"}
	for _, f := range forms {
		for ei := range endings {
			for ci, caller := range callers {
				for _, rel := range []bool{true, false} {
					out = append(out, cases.Case{Name: fmt.Sprintf("%s, %s, called from %q, relative %v", f.name, endings[ei].name, caller, rel), Run: func(r *result) {
						dir, err := filepath.EvalSymlinks(scratch())
						cases.Must(err)
						for _, d := range []string{"bin", "outer", "elsewhere", "side", "prog"} {
							cases.Must(os.RemoveAll(filepath.Join(dir, d)))
						}
						for _, p := range append([]string{"elsewhere/sub/x", "outer/base/sub/x"}, all...) {
							e := 0
							if p == f.path {
								e = ei
							}
							install(filepath.Join(dir, p), p, e)
						}
						path := os.Getenv("PATH")
						os.Setenv("PATH", filepath.Join(dir, "bin")+":/nowhere")
						defer os.Setenv("PATH", path)
						cwd := filepath.Join(dir, caller)
						cases.Must(os.Chdir(cwd))
						defer os.Chdir(dir)
						file := filepath.Join(dir, "outer", "base", "book.jsonnet")
						name := file
						if rel {
							name, _ = filepath.Rel(cwd, file)
						}
						for ai, args := range argLists {
							if ai > 2 && ei > 2 && ci > 0 && !cases.Thorough {
								continue
							}
							prog := strings.Replace(f.arg, "/ABS", dir, 1)
							cases.Must(os.WriteFile(file, []byte(js(map[string]any{
								"targets": map[string]any{"s": map[string]any{"class": "sh"}},
								"tasks":   map[string]any{"t": map[string]any{"target": "s", "config": map[string]any{"args": append([]string{prog}, args...)}}},
							})), 0o644))
							sig := fmt.Sprintf("a program named %s that %s, called from %q (relative %v) with %.60q", f.name, endings[ei].name, caller, rel, args)
							runTask(r, sig, name, filepath.Join(dir, "outer", "base"), f.path, ei, args, dir, false)
							if ai < 3 {
								runTask(r, sig+", to files", name, filepath.Join(dir, "outer", "base"), f.path, ei, args, dir, true)
							}
						}
					}})
				}
			}
		}
	}
	// every status and every signal, with and without something printed
	type last struct {
		how, line string
		fails     bool
	}
	var lasts []last
	for i := 0; i < 256; i++ {
		lasts = append(lasts, last{fmt.Sprintf("exits with %d", i), fmt.Sprintf("exit %d", i), i > 0})
	}
	for sig := 1; sig < 65; sig++ {
		switch sig {
		case 17, 18, 23, 28: // they don't end a program
			lasts = append(lasts, last{fmt.Sprintf("sends itself signal %d, which does nothing", sig), fmt.Sprintf("kill -%d $$", sig), false})
		case 19, 20, 21, 22, 32, 33: // they stop it, or have no name
		default:
			lasts = append(lasts, last{fmt.Sprintf("is ended by signal %d", sig), fmt.Sprintf("ulimit -c 0; kill -%d $$", sig), true})
		}
	}
	const batch = 8
	for from := 0; from < len(lasts); from += batch {
		some := lasts[from:min(from+batch, len(lasts))]
		out = append(out, cases.Case{Name: some[0].how + " and so on", Run: func(r *result) {
			dir := scratch()
			for i, l := range some {
				for pi, print := range []string{"", "echo o", "echo e >&2", "echo o; echo e >&2", "exec 2>&-", "exec >&-"} {
					p := filepath.Join(dir, "end")
					cases.Must(os.WriteFile(p, []byte("#!/bin/sh\n"+print+"\n"+l.line+"\n"), 0o755))
					file := write("end.jsonnet", js(map[string]any{
						"targets": map[string]any{"s": map[string]any{"class": "sh"}},
						"tasks": map[string]any{"t": map[string]any{"target": "s", "config": map[string]any{"args": []string{"./end"}}},
							"u": map[string]any{"target": "s", "after": []string{"t"}, "config": map[string]any{"args": []string{"echo", "next"}}}},
					}))
					io, o, e := quiet()
					var err error
					problem := cases.Guarded(func() { err = runbook.Run(io, file) })
					r.State()
					r.Count("transitions", 1)
					sig := fmt.Sprintf("a program that %s (%q, %d)", l.how, print, from+i)
					if problem != "" || l.fails != (err != nil) {
						r.Add(sig, "%s: %v %s", sig, err, problem)
					}
					wo, we := "", ""
					if pi == 1 || pi == 3 {
						wo = "o\n"
					}
					if pi == 2 || pi == 3 {
						we = "e\n"
					}
					if !l.fails {
						wo += "next\n"
					}
					if o.String() != wo || e.String() != we {
						r.Add(sig+": output", "%s: %q and %q arrive instead of %q and %q", sig, o.String(), e.String(), wo, we)
					}
				}
			}
		}})
	}
	// much output, in two streams
	for _, n := range []int{1, 4095, 4096, 65535, 65536, 65537, 300000} {
		for ei := range endings[:8] {
			out = append(out, cases.Case{Name: fmt.Sprintf("%d bytes, then it %s", n, endings[ei].name), Run: func(r *result) {
				dir := scratch()
				p := filepath.Join(dir, "talk")
				cases.Must(os.WriteFile(p, []byte(fmt.Sprintf("#!/bin/sh\nhead -c %d /dev/zero | tr '\\0' o\nhead -c %d /dev/zero | tr '\\0' e >&2\n%s\n", n, n, endings[ei].last)), 0o755))
				file := write("talk.jsonnet", js(map[string]any{
					"targets": map[string]any{"s": map[string]any{"class": "sh"}},
					"tasks":   map[string]any{"t": map[string]any{"target": "s", "config": map[string]any{"args": []string{"./talk"}}}},
				}))
				io, o, e := quiet()
				var err error
				problem := cases.Guarded(func() { err = runbook.Run(io, file) })
				r.State()
				r.Count("transitions", 1)
				sig := fmt.Sprintf("a program that prints %d bytes and %s", n, endings[ei].name)
				if problem != "" || endings[ei].fails != (err != nil) {
					r.Add(sig, "%s: %v %s", sig, err, problem)
				}
				if o.String() != strings.Repeat("o", n) || e.String() != strings.Repeat("e", n) {
					r.Add(sig+": output", "%s: %d and %d bytes arrive", sig, o.Len(), e.Len())
				}
			}})
		}
	}
	return
}

func runTask(r *result, sig, file, base, who string, ei int, args []string, dir string, files bool) {
	io, ob, eb := quiet()
	if files {
		fo, err := os.Create(filepath.Join(dir, "stdout"))
		cases.Must(err)
		fe, err := os.Create(filepath.Join(dir, "stderr"))
		cases.Must(err)
		defer fo.Close()
		defer fe.Close()
		io.Stdout, io.Stderr = fo, fe
	}
	var err error
	problem := cases.Guarded(func() { err = runbook.Run(io, file) })
	r.State()
	r.Count("transitions", 1)
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		r.Add(sig+": "+m, "%s: %s", sig, m)
	}
	if problem != "" {
		bad("%s", problem)
		return
	}
	o, e := ob.Bytes(), eb.Bytes()
	if files {
		o, _ = os.ReadFile(filepath.Join(dir, "stdout"))
		e, _ = os.ReadFile(filepath.Join(dir, "stderr"))
	}
	end := endings[ei]
	if end.fails != (err != nil) {
		bad("the error is %v", err)
	}
	var wo, we string
	if end.starts {
		wo = strings.Join(append([]string{who, base}, args...), "\x00") + "\x00"
		we = "err " + who
	}
	if !bytes.Equal(o, []byte(wo)) {
		bad("standard output is %.300q instead of %.300q", o, wo)
	}
	if string(e) != we {
		bad("standard error is %.300q instead of %.300q", e, we)
	}
}
