//go:build go1.22

package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

// ---- C09

var envNames = []string{"A", "AB", "B"}

// filters is the alphabet of filters.
func filters(small bool) (out []sh.Env) {
	allow := [][]string{nil, {"A"}, {"B"}, {"A", "B"}, {"Z"}, {"AB", "A", "A"}, {"PATH"}}
	deny := [][]string{nil, {"A"}, {"B", "AB"}, {"Z"}, {"B", "A"}}
	set := []map[string]string{nil, {"A": ""}, {"A": "x=y"}, {"B": "set"}, {"Z": "z"}, {"A": "1", "Z": "=2"}, {"AB": "A=3"}}
	if small {
		allow = [][]string{nil, {"A"}, {"A", "B"}, {"Z"}}
		deny = [][]string{nil, {"A"}, {"B", "AB"}}
		set = []map[string]string{nil, {"A": ""}, {"A": "1", "Z": "=2"}}
	}
	for _, a := range allow {
		for _, d := range deny {
			for _, s := range set {
				out = append(out, sh.Env{Allow: a, Deny: d, Set: s})
			}
		}
	}
	return
}

func environments() (out []map[string]string) {
	values := []string{"\x00", "", "1", "p=q"}
	for x := 0; x < 64; x++ {
		m := map[string]string{}
		for i, y := 0, x; i < 3; i, y = i+1, y/4 {
			if v := values[y%4]; v != "\x00" {
				m[envNames[i]] = v
			}
		}
		out = append(out, m)
	}
	return
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// filtered is what a filter should leave.
func filtered(m map[string]string, f sh.Env) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		if len(f.Allow) > 0 && has(f.Allow, k) || len(f.Allow) == 0 && !has(f.Deny, k) {
			out[k] = v
		}
	}
	for k, v := range f.Set {
		out[k] = v
	}
	return out
}

func list(m map[string]string) (out []string) {
	for k, v := range m {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return
}

// meaning of a list of variables: the last one counts.
func meaning(l []string) (map[string]string, string) {
	out := map[string]string{}
	for _, kv := range l {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			return nil, kv
		}
		out[k] = v
	}
	return out, ""
}

func same(a, b map[string]string) bool {
	return strings.Join(list(a), "\x00") == strings.Join(list(b), "\x00")
}

func showFilter(f sh.Env) string {
	return fmt.Sprintf("allow %q deny %q set %q", f.Allow, f.Deny, f.Set)
}

// through checks what one filter leaves, and two of them.
func through(r *result, name string, m map[string]string, f, g sh.Env) {
	in := list(m)
	var mid, end []string
	if p := cases.Guarded(func() { mid = f.Apply(in); end = g.Apply(mid) }); p != "" {
		r.Add(name+": "+p, "%s: %s", name, p)
		return
	}
	r.State()
	r.Count("transitions", 2*len(in))
	want := filtered(m, f)
	for i, l := range [][]string{mid, end} {
		if i == 1 {
			want = filtered(want, g)
		}
		if got, odd := meaning(l); odd != "" || !same(got, want) {
			r.Add(name, "%s: %d variables instead of %d after filter %d: %.300q instead of %.300q", name, len(l), len(want), i+1, l, list(want))
			return
		}
	}
}

// oddEnvironments have names that are nearly the same, or mean something
// elsewhere, or are many, or long.
func oddEnvironments() (out []cases.Case) {
	names := []string{"A", "a", "AA", "Aa", "_A", "A_", "A ", " A", "A1", "A*", "*", "A.*", ".*", "A?", "?", "!A", "-A", "^A", "A$", "$A", "${A}", "%A%", "A,B", "A:B", "A.B", "A-B", "A/B", "é", "É", "e\u0301", "\u212a", "K", "k", "\"A\"", "A\n", "PATH", "Path", "HOME", "PWD", "_", "0", "BASH_FUNC_x%%", "LD_PRELOAD"}
	values := []string{"", "1", "p=q", "=", "A", "x\ny", " ", "$A", "\"", "é", "\xff"}
	m := map[string]string{}
	for i, n := range names {
		m[n] = values[i%len(values)]
	}
	for i, x := range names {
		out = append(out, cases.Case{Name: fmt.Sprintf("variables like %q", x), Run: func(r *result) {
			for j, y := range names {
				for k, f := range []sh.Env{{Allow: []string{x, y}}, {Deny: []string{x, y}}, {Allow: []string{x}, Deny: []string{y}}, {Allow: []string{x}, Set: map[string]string{y: "set"}}, {Deny: []string{x}, Set: map[string]string{y: ""}}, {Set: map[string]string{x: "=1", y: values[j%len(values)]}}} {
					some := map[string]string{}
					for l, n := range names {
						if (l+i+j)%3 != 0 {
							some[n] = m[n]
						}
					}
					for l, env := range []map[string]string{m, some, {x: m[x]}, {y: m[y]}} {
						through(r, fmt.Sprintf("variables like %q and %q, filter %d, environment %d", x, y, k, l), env, f, sh.Env{Allow: []string{y, "A"}, Deny: []string{x}})
					}
				}
			}
		}})
	}
	counts, lengths := []int{5, 16, 17, 64, 65, 300, 2000}, []int{64, 255, 256, 257, 4096, 32768, 70000, 1000000}
	if cases.Thorough {
		counts = append(counts, 7, 8, 9, 15, 31, 32, 33, 63, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 20000)
		for n := 1; n < 300; n++ {
			lengths = append(lengths, n)
		}
	}
	for _, n := range counts {
		out = append(out, cases.Case{Name: fmt.Sprintf("%d variables", n), Run: func(r *result) {
			env := map[string]string{}
			var even, all, none []string
			set, update := map[string]string{}, map[string]string{}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("V%d", i)
				env[k] = fmt.Sprintf("value=%d", i)
				all = append(all, k)
				none = append(none, "X"+k)
				if i%2 == 0 {
					even = append(even, k)
					update[k] = fmt.Sprint("new ", i)
				}
				set["S"+k] = fmt.Sprint(i)
			}
			lists := [][]string{nil, all[:1], all[n-1:], even, all, none, append(append([]string{}, none...), even...)}
			for i, a := range lists {
				for j, d := range lists {
					for k, s := range []map[string]string{nil, {all[n-1]: "x"}, set, update} {
						through(r, fmt.Sprintf("%d variables, allow %d, deny %d, set %d", n, i, j, k), env, sh.Env{Allow: a, Deny: d, Set: s}, sh.Env{Deny: all[:n/2]})
					}
				}
			}
		}})
	}
	out = append(out, cases.Case{Name: "long variables", Run: func(r *result) {
		for _, n := range lengths {
			long := strings.Repeat("L", n-1)
			for i, env := range []map[string]string{{long + "A": "1", long + "B": "2", long: "3"}, {"A": long + "A", "B": long + "="}} {
				for k := range env {
					for j, f := range []sh.Env{{Allow: []string{k}}, {Deny: []string{k}}, {Set: map[string]string{k: long, long + "C": "c"}}} {
						through(r, fmt.Sprintf("variables of %d characters, environment %d, filter %d", n, i, j), env, f, sh.Env{Deny: []string{long + "B"}})
					}
				}
			}
		}
	}})
	return
}

func casesC09() (out []cases.Case) {
	fs := filters(false)
	envs := environments()
	for i, f := range fs {
		out = append(out, cases.Case{Name: fmt.Sprintf("filter %d", i), Run: func(r *result) {
			for _, m := range envs {
				for rev := 0; rev < 2; rev++ {
					in := list(m)
					if rev == 1 {
						for a, b := 0, len(in)-1; a < b; a, b = a+1, b-1 {
							in[a], in[b] = in[b], in[a]
						}
					}
					kept := strings.Join(in, "\x00")
					sig := fmt.Sprintf("%q through %s", in, showFilter(f))
					var mid []string
					if p := cases.Guarded(func() { mid = f.Apply(in) }); p != "" {
						r.Add(sig+": "+p, "%s: %s", sig, p)
						continue
					}
					r.State()
					r.Count("transitions", len(in))
					want := filtered(m, f)
					if got, odd := meaning(mid); odd != "" || !same(got, want) {
						r.Add(sig, "%s gives %q instead of %q", sig, mid, list(want))
						continue
					}
					if strings.Join(in, "\x00") != kept {
						r.Add(sig+": input", "%s changes its input", sig)
					}
					if rev == 1 {
						continue
					}
					// the task's filter, and another task's after it
					for _, g := range fs {
						end := g.Apply(mid)
						r.State()
						r.Count("transitions", len(mid))
						if got, odd := meaning(end); odd != "" || !same(got, filtered(want, g)) {
							s := sig + " and " + showFilter(g)
							r.Add(s, "%s gives %q instead of %q", s, end, list(filtered(want, g)))
						}
					}
				}
			}
		}})
	}
	out = append(out, oddEnvironments()...)
	// the same through real processes, two tasks in a row
	some := filters(true)
	inherited := []map[string]string{{}, {"A": "1"}, {"A": "p=q", "AB": "", "B": "1"}, {"B": "x\ny", "PATH": "/nowhere"}}
	if cases.Thorough {
		some = filters(false)
	}
	for i, f := range some {
		out = append(out, cases.Case{Name: fmt.Sprintf("process %d", i), Run: func(r *result) {
			saved := os.Environ()
			defer func() {
				os.Clearenv()
				for _, kv := range saved {
					k, v, _ := strings.Cut(kv, "=")
					os.Setenv(k, v)
				}
			}()
			for _, m := range inherited {
				os.Clearenv()
				for k, v := range m {
					os.Setenv(k, v)
				}
				var o, e bytes.Buffer
				t := (&sh.TargetFactory{Basedir: cases.Tmp, Stdout: &o, Stderr: &e}).NewTarget().(*sh.Target)
				t.Env = f
				err := t.Analyze()
				if err == nil {
					err = t.Start()
				}
				if err != nil {
					r.Add("start", "a target with the filter %s does not start: %v", showFilter(f), err)
					return
				}
				for j, g := range some {
					second := some[(j*7+i)%len(some)]
					for n, h := range []sh.Env{g, second} {
						if n == 1 && j%3 != 0 && !cases.Thorough {
							continue
						}
						o.Reset()
						e.Reset()
						x := &sh.Exec{Args: []string{"/usr/bin/env", "-0"}, Env: h}
						err := t.Handle(context.Background(), x)
						sig := fmt.Sprintf("process: %q through %s and %s", list(m), showFilter(f), showFilter(h))
						if n == 1 {
							sig += " after a task with " + showFilter(g)
						}
						r.State()
						r.Count("processes", 1)
						r.Count("transitions", len(m))
						if err != nil || e.Len() > 0 {
							r.Add(sig+": fails", "%s: %v %s", sig, err, e.String())
							continue
						}
						var lines []string
						if o.Len() > 0 {
							lines = strings.Split(strings.TrimSuffix(o.String(), "\x00"), "\x00")
						}
						want := filtered(filtered(m, f), h)
						if got, odd := meaning(lines); odd != "" || !same(got, want) || len(lines) != len(want) {
							r.Add(sig, "%s gives %q instead of %q", sig, lines, list(want))
						}
					}
				}
				t.Stop()
			}
		}})
	}
	return
}
