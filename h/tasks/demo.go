//go:build go1.22

package main

import (
	"context"
	"fmt"
	"strings"
	"unicode/utf8"

	rdemo "github.com/sjansen/pgutil/internal/runbook/demo"
	rtypes "github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/mc"
)

// ---- C26

// A shared is one of the demonstration targets.
type shared interface {
	get() string
	run(kind string) error
	limit() int // of concurrent calls of run
}

type setTarget struct {
	t *demo.Target
}

func (s setTarget) get() string { return s.t.String }
func (s setTarget) run(kind string) error {
	return s.t.Run(context.Background(), newTask("demo/"+kind))
}
func (s setTarget) limit() int { return 99 }

type bookTarget struct {
	t *rdemo.Target
}

func (s bookTarget) get() string { return s.t.String }
func (s bookTarget) run(kind string) error {
	c, err := s.t.NewTaskConfig(kind)
	if err != nil {
		return err
	}
	if err := c.Check(); err != nil {
		return err
	}
	return s.t.Handle(context.Background(), c)
}
func (s bookTarget) limit() int { return s.t.ConcurrencyLimit() }

var _ rtypes.Target = &rdemo.Target{}

var sharedKinds = []string{"task set", "runbook"}

func newShared(kind, text string, w *writer) shared {
	if kind == "task set" {
		t := (&demo.TargetFactory{Stdout: w}).NewTarget().(*demo.Target)
		t.String = text
		return setTarget{t}
	}
	t := (&rdemo.TargetFactory{Stdout: w}).NewTarget().(*rdemo.Target)
	t.String = text
	return bookTarget{t}
}

// reference

func reversed(s string) string {
	out := ""
	for _, c := range s {
		out = string(c) + out
	}
	return out
}

func rotated(s string) string {
	out := ""
	for _, c := range s {
		for _, first := range "aA" {
			if d := c - first; d >= 0 && d < 26 {
				c = first + (d+13)%26
				break
			}
		}
		out += string(c)
	}
	return out
}

// apply is what a task does, and what it prints.
func apply(kind, s string) (string, string) {
	switch kind {
	case "rev":
		return reversed(s), ""
	case "rot13":
		return rotated(s), ""
	case "echo":
		return s, s + "\n"
	}
	return s, ""
}

func permutations(n int) (out [][]int) {
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

// serial are the outcomes of doing the tasks one at a time.
func serial(text string, kinds []string) map[string]bool {
	out := map[string]bool{}
	for _, p := range permutations(len(kinds)) {
		s, printed := text, ""
		for _, i := range p {
			var o string
			s, o = apply(kinds[i], s)
			printed += o
		}
		out[fmt.Sprintf("%q, printed %q", s, printed)] = true
	}
	return out
}

func demoCases() (ks []cases.Case) {
	// concurrent
	texts := []string{"a", "aN", "zé!"}
	maxN := 3
	for n := 2; n <= maxN; n++ {
		all := []string{"echo", "fail", "rev", "rot13", "sleep"}
		if n == 3 {
			all = []string{"echo", "rev", "rot13"} // the others leave the string alone
		}
		for _, kinds := range multisets(all, n) {
			for _, text := range texts {
				if n == 3 && len(text) != 2 {
					continue
				}
				for _, target := range sharedKinds {
					for _, how := range []string{"called", "queued"} {
						if how == "queued" && target == "runbook" {
							continue
						}
						name := fmt.Sprintf("%s target, %s: %s on %q", target, how, strings.Join(kinds, ","), text)
						ks = append(ks, cases.Case{Name: name, Run: func(r *result) { concurrently(r, name, target, how, text, kinds) }})
					}
				}
			}
		}
	}
	// many at once, each under a number of fixed schedulers
	counts := []int{9, 40}
	if cases.Thorough {
		counts = []int{5, 9, 17, 40, 100, 300}
	}
	for _, n := range counts {
		for _, shape := range manyShapes {
			f := shape.kind
			for _, target := range sharedKinds {
				for _, how := range []string{"called", "queued"} {
					if how == "queued" && target == "runbook" {
						continue
					}
					for _, text := range []string{"aN", strings.Repeat("zé!q", 100)} {
						name := fmt.Sprintf("%s target, %s: %d tasks, %s, on %d characters", target, how, n, shape.name, len([]rune(text)))
						var kinds []string
						for i := 0; i < n; i++ {
							kinds = append(kinds, f(i))
						}
						ks = append(ks, cases.Case{Name: name, Run: func(r *result) {
							for policy := 1; policy <= mc.Policies && len(r.Viol) == 0; policy++ {
								together(r, fmt.Sprintf("%s, scheduler %d", name, policy), target, how, text, kinds, possible(text, kinds), mc.Options{Policy: policy, MaxSteps: 500000})
							}
						}})
					}
				}
			}
		}
	}
	// one after another
	alphabet := []string{"a", "m", "n", "z", "A", "M", "N", "Z", "`", "{", "@", "[", " ", "\n", "\x00", "é", "ß", "\u0301", "😀", "\ufffd"}
	depth, length := 4, 3
	if cases.Thorough {
		depth, length = 6, 4
	}
	for _, target := range sharedKinds {
		for _, first := range append([]string{""}, alphabet...) {
			name := fmt.Sprintf("%s target: texts that begin with %q", target, first)
			ks = append(ks, cases.Case{Name: name, Run: func(r *result) {
				var texts func(s string, n int)
				texts = func(s string, n int) {
					sequences(r, target, s, depth-n)
					if n < length && s != "" {
						for _, a := range alphabet {
							texts(s+a, n+1)
						}
					}
				}
				texts(first, 1)
			}})
		}
		const part = 0x8000
		for lo := 0; lo <= utf8.MaxRune; lo += part {
			name := fmt.Sprintf("%s target: characters from %U", target, lo)
			ks = append(ks, cases.Case{Name: name, Run: func(r *result) {
				var b strings.Builder
				for c := lo; c < lo+part; c++ {
					if utf8.ValidRune(rune(c)) {
						b.WriteRune(rune(c))
					}
				}
				for _, seq := range [][]string{{"rot13"}, {"rot13", "rot13"}, {"rev"}, {"rev", "rev"}, {"rev", "rot13", "echo"}} {
					r.Count("characters", b.Len())
					sequence(r, target, b.String(), seq, fmt.Sprintf("the characters from %U", lo))
				}
			}})
		}
	}
	return
}

func sequences(r *result, target, text string, depth int) {
	var rec func(seq []string)
	rec = func(seq []string) {
		if len(seq) > 0 {
			sequence(r, target, text, seq, fmt.Sprintf("%q", text))
		}
		if len(seq) < depth {
			for _, k := range []string{"echo", "fail", "rev", "rot13"} {
				rec(append(seq, k))
			}
		}
	}
	rec(nil)
}

func sequence(r *result, target, text string, seq []string, what string) {
	r.State()
	r.Count("transitions", len(seq))
	w := &writer{}
	t := newShared(target, text, w)
	s, printed := text, ""
	for i, k := range seq {
		var o string
		s, o = apply(k, s)
		printed += o
		var err error
		problem := ""
		func() {
			defer func() {
				if x := recover(); x != nil {
					problem = fmt.Sprint(x)
				}
			}()
			err = t.run(k)
		}()
		switch {
		case problem != "":
			r.Add(fmt.Sprintf("%s: %s on %s panics", target, seq[:i+1], what), "%s on %s: %s", seq[:i+1], what, problem)
			return
		case (err != nil) != (k == "fail"):
			r.Add(fmt.Sprintf("%s: %s on %s: error", target, seq[:i+1], what), "%s on %s: the last one returns %v", seq[:i+1], what, err)
			return
		case t.get() != s:
			r.Add(fmt.Sprintf("%s: %s on %s", target, seq[:i+1], what), "%s on %s gives %.200q instead of %.200q", seq[:i+1], what, t.get(), s)
			return
		case strings.Join(w.lines, "") != printed:
			r.Add(fmt.Sprintf("%s: %s on %s: printed", target, seq[:i+1], what), "%s on %s prints %.200q instead of %.200q", seq[:i+1], what, w.lines, printed)
			return
		}
	}
}

// manyShapes are the kinds of many tasks.
var manyShapes = []struct {
	name string
	kind func(i int) string
}{
	{"only rev", func(i int) string { return "rev" }},
	{"only rot13", func(i int) string { return "rot13" }},
	{"only echo", func(i int) string { return "echo" }},
	{"rev and rot13", func(i int) string { return []string{"rev", "rot13", "rot13"}[i%3] }},
	{"all kinds", func(i int) string { return []string{"echo", "rev", "rot13", "fail", "sleep"}[i%5] }},
}

// possible are the outcomes of many tasks: the changes commute, and each is
// its own opposite, so that only their numbers count; an echo prints one of
// four texts.
func possible(text string, kinds []string) func(s, printed string) bool {
	s, n, changes := text, 0, 0
	for _, k := range kinds {
		s, _ = apply(k, s)
		switch k {
		case "echo":
			n++
		case "rev", "rot13":
			changes++
		}
	}
	forms := map[string]bool{text: true}
	if changes > 0 {
		for _, f := range []string{reversed(text), rotated(text), rotated(reversed(text))} {
			forms[f] = true
		}
	}
	return func(got, printed string) bool {
		lines := strings.Split(printed, "\n")
		for _, l := range lines[:len(lines)-1] {
			if !forms[l] {
				return false
			}
		}
		return got == s && len(lines) == n+1 && lines[n] == ""
	}
}

func concurrently(r *result, name, target, how, text string, kinds []string) {
	outcomes := serial(text, kinds)
	allowed := func(s, printed string) bool { return outcomes[fmt.Sprintf("%q, printed %q", s, printed)] }
	o := mc.Options{NoCache: true, Preempt: 2, MapDevs: 0, MaxSteps: 20000}
	if len(kinds) == 3 && how == "queued" {
		o.Preempt = 1
	}
	if cases.Thorough {
		o.Preempt++
	}
	together(r, name, target, how, text, kinds, allowed, o)
}

func together(r *result, name, target, how, text string, kinds []string, allowed func(s, printed string) bool, o mc.Options) {
	explore(r, name, o, func(x *mc.Exec) {
		x.DeadTag, x.LeakTag = "C26", "C26"
		w := &writer{}
		t := newShared(target, text, w)
		failed := func(k string, err error) {
			if (err != nil) != (k == "fail") {
				x.Violate("C26", "%s returns %v", k, err)
			}
		}
		if how == "called" {
			next := 0
			done := mc.NewChan[int](len(kinds))
			workers := t.limit()
			if workers > len(kinds) {
				workers = len(kinds)
			}
			order := kinds
			if workers < len(kinds) && o.Policy == 0 {
				// fewer workers: in any order
				ps := permutations(len(kinds))
				order = nil
				for _, i := range ps[mc.Choose(len(ps), "order")] {
					order = append(order, kinds[i])
				}
			}
			for i := 0; i < workers; i++ {
				mc.Go(func() {
					for next < len(order) {
						k := order[next]
						next++
						failed(k, t.run(k))
					}
					done.Send(1)
				})
			}
			for i := 0; i < workers; i++ {
				done.Recv()
			}
		} else {
			st := t.(setTarget).t
			st.MaxConcurrency = len(kinds)
			q, res := st.Start()
			batch := types.TaskBatch{}
			for i, k := range kinds {
				batch[types.TaskID(fmt.Sprint(i))] = newTask("demo/" + k)
			}
			q.Send(batch)
			q.Close()
			for {
				rs, ok := res.Recv2()
				if !ok {
					break
				}
				for id, err := range rs {
					var i int
					fmt.Sscan(string(id), &i)
					failed(kinds[i], err)
				}
			}
		}
		if got, printed := t.get(), strings.Join(w.lines, ""); !allowed(got, printed) {
			x.Violate("C26", "the string is %.200q, printed %.400q, which no order of the tasks gives", got, printed)
		}
	})
}
