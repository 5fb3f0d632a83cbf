//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/taskset/base"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/mc"
)

// ---- C24

type fakeTask struct {
	base.Task
	i int
}

func (*fakeTask) Ready() error { return nil }

// A client's way to use a queue.
const (
	pipeline = iota // one thread submits and closes, another collects
	lockstep        // submit a batch, collect its results, submit the next
	upfront         // submit everything, then collect, then close
	hurried         // submit everything, close, then collect
	ways
)

var wayNames = []string{"pipeline", "lockstep", "upfront", "hurried"}

type monitor struct {
	sameName                  bool
	x                         *mc.Exec
	limit                     int
	started, ended, delivered []int
	running                   int
	closed, checked           bool
}

func (m *monitor) key() uint64 {
	return mc.HashString(fmt.Sprint(m.started, m.ended, m.delivered, m.running, m.closed))
}

type queue = *mc.Chan[types.TaskBatch]
type answers = *mc.Chan[types.TaskResults]

// drive uses a queue; batches are tasks by number.
func (m *monitor) drive(q queue, res answers, way int, batches [][]int, task func(i int) types.Task, want func(i int) error) {
	n := 0
	for _, b := range batches {
		n += len(b)
	}
	id := func(i int) types.TaskID {
		if m.sameName || i == 1 {
			return "" // any name will do
		}
		return types.TaskID(fmt.Sprintf("task %d", i))
	}
	submit := func(b []int) {
		batch := types.TaskBatch{}
		for _, i := range b {
			batch[id(i)] = task(i)
		}
		q.Send(batch)
	}
	got := 0
	take := func(r types.TaskResults) {
		for k, err := range r {
			i := -1
			for j := 0; j < n; j++ {
				if id(j) == k && (i < 0 || m.delivered[i] > 0) {
					i = j
				}
			}
			if i < 0 {
				m.x.Violate("C24", "there is a result of %q, which was not submitted", k)
				continue
			}
			got++
			m.delivered[i]++
			if m.delivered[i] > 1 {
				m.x.Violate("C24", "there are two results of task %d", i)
			}
			if w := want(i); !same(w, err) {
				m.x.Violate("C24", "the result of task %d is %v instead of %v", i, err, w)
			}
			if m.started != nil && m.ended[i] == 0 && !m.sameName {
				m.x.Violate("C24", "there is a result of task %d, which has not ended", i)
			}
		}
	}
	shut := func() {
		m.closed = true
		q.Close()
	}
	drain := func() {
		for {
			r, ok := res.Recv2()
			if !ok {
				break
			}
			take(r)
		}
		if got != n {
			m.x.Violate("C24", "the results end after %d of %d", got, n)
		}
		m.checked = true
	}
	collect := func(k int) {
		for k += got; got < k; {
			r, ok := res.Recv2()
			if !ok {
				m.x.Violate("C24", "the results end after %d of %d", got, n)
				return
			}
			take(r)
		}
	}
	switch way {
	case pipeline:
		mc.Go(func() {
			for _, b := range batches {
				submit(b)
			}
			shut()
		})
		drain()
	case lockstep:
		for _, b := range batches {
			submit(b)
			collect(len(b))
		}
		shut()
		drain()
	case upfront:
		for _, b := range batches {
			submit(b)
		}
		collect(n)
		shut()
		drain()
	case hurried:
		for _, b := range batches {
			submit(b)
		}
		shut()
		drain()
	}
}

func same(a, b error) bool {
	return a == nil && b == nil || a != nil && b != nil && (errors.Is(b, a) || a == anyError)
}

var anyError = errors.New("an error")

func (m *monitor) hooks(n int) {
	m.delivered = make([]int, n)
	m.x.MonKey = m.key
	m.x.DeadTag = "C24"
	m.x.LeakTag = "C24"
}

// splits are the ways to cut n tasks into batches, empty ones included.
func splits(n, empties int) (out [][]int) {
	var rec func(rest, empties int, cur []int)
	rec = func(rest, empties int, cur []int) {
		if rest == 0 {
			out = append(out, append([]int(nil), cur...))
		}
		for k := 1; k <= rest; k++ {
			rec(rest-k, empties, append(cur, k))
		}
		if empties > 0 {
			rec(rest, empties-1, append(cur, 0))
		}
	}
	rec(n, empties, nil)
	return
}

func number(sizes []int) (out [][]int) {
	i := 0
	for _, k := range sizes {
		var b []int
		for ; k > 0; k-- {
			b = append(b, i)
			i++
		}
		out = append(out, b)
	}
	return
}

func sum(l []int) (n int) {
	for _, x := range l {
		n += x
	}
	return
}

func queueCases() (ks []cases.Case) {
	maxN := 4
	if cases.Thorough {
		maxN = 5
	}
	for n := 0; n <= maxN; n++ {
		empties := 1
		if n <= 2 {
			empties = 2
		}
		for _, sizes := range splits(n, empties) {
			for limit := 1; limit <= 3; limit++ {
				for way := 0; way < ways; way++ {
					if way >= upfront && len(sizes) > limit {
						continue // the queue can't hold them
					}
					if n >= 4 && (has0(sizes) || !cases.Thorough && limit == 3 && way == pipeline) {
						continue
					}
					name := fmt.Sprintf("queue: batches of [%s], limit %d, %s", join(sizes), limit, wayNames[way])
					ks = append(ks, cases.Case{Name: name, Run: func(r *result) {
						fails := 1 << n
						if n > 2 {
							fails = 2
						}
						for fail := 0; fail < fails; fail++ {
							if queueCase(r, name, sizes, limit, way, fail, false); len(r.Viol) > 0 {
								return
							}
						}
						if n > 1 && len(sizes) == n && !has0(sizes) {
							queueCase(r, name+", all with the same name", sizes, limit, way, 0, true)
						}
					}})
				}
			}
		}
	}
	ks = append(ks, manyTasks()...)
	for _, t := range realTargets() {
		for n := 0; n <= 3; n++ {
			for _, kinds := range multisets(t.kinds, n) {
				for _, sizes := range splits(n, 0) {
					for way := 0; way < ways; way++ {
						if way >= upfront && len(sizes) > t.limit {
							continue
						}
						name := fmt.Sprintf("%s: %s in batches of [%s], %s", t.name, strings.Join(kinds, ","), join(sizes), wayNames[way])
						ks = append(ks, cases.Case{Name: name, Run: func(r *result) { targetCase(r, name, t, kinds, sizes, way) }})
					}
				}
			}
		}
	}
	return
}

// manyTasks are queues of more tasks than can be explored: each is run under
// a number of fixed schedulers.
func manyTasks() (ks []cases.Case) {
	counts := []int{17, 70}
	limits := []int{1, 2, 5, 9, 17, 64, 300}
	if cases.Thorough {
		counts = []int{9, 17, 33, 70, 130, 300}
		limits = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257, 300, 1000}
	}
	for _, n := range counts {
		for i, sizes := range [][]int{{n}, fill(n, 1), {n / 2, n - n/2}, fill(n, 4), append([]int{1}, fill(n-1, 5)...)} {
			for _, limit := range limits {
				for way := 0; way < ways; way++ {
					if way >= upfront && len(sizes) > limit {
						continue
					}
					name := fmt.Sprintf("queue: %d tasks in batches of %s, limit %d, %s", n, []string{"all", "1", "a half", "4", "5 after one"}[i], limit, wayNames[way])
					ks = append(ks, cases.Case{Name: name, Run: func(r *result) {
						for policy := 1; policy <= mc.Policies && len(r.Viol) == 0; policy++ {
							queueRun(r, fmt.Sprintf("%s, scheduler %d", name, policy), sizes, limit, way,
								func(i int) bool { return i%5 == 3 || i == n-1 }, false, mc.Options{Policy: policy})
						}
					}})
				}
			}
		}
	}
	return
}

// fill divides n into parts of k and a rest.
func fill(n, k int) (out []int) {
	for ; n > k; n -= k {
		out = append(out, k)
	}
	return append(out, n)
}

func has0(l []int) bool {
	for _, x := range l {
		if x == 0 {
			return true
		}
	}
	return false
}

func queueCase(r *result, name string, sizes []int, limit, way, fail int, sameName bool) {
	queueRun(r, name, sizes, limit, way, func(i int) bool { return fail&(1<<i) != 0 }, sameName, mc.Options{Preempt: -1, MapDevs: 1})
}

func queueRun(r *result, name string, sizes []int, limit, way int, fails func(i int) bool, sameName bool, opt mc.Options) {
	batches := number(sizes)
	n := sum(sizes)
	errs := make([]error, n)
	for i := range errs {
		if fails(i) {
			errs[i] = fmt.Errorf("task %d failed", i)
		}
	}
	explore(r, name, opt, func(x *mc.Exec) {
		m := &monitor{x: x, sameName: sameName, limit: limit, started: make([]int, n), ended: make([]int, n)}
		m.hooks(n)
		q, res := base.RunTasks(func(id types.TaskID, t types.Task, relay *mc.Chan[types.TaskResults]) {
			i := -1
			if f, ok := t.(*fakeTask); ok {
				i = f.i
			} else {
				x.Violate("C24", "a task that was not submitted is executed: %v", t)
				return
			}
			mc.Go(func() {
				mc.Event("task-start", func() {
					m.started[i]++
					if m.started[i] > 1 {
						x.Violate("C24", "task %d is executed twice", i)
					}
					if m.running++; m.running > limit {
						x.Violate("C24", "%d tasks are executed at once, the limit is %d", m.running, limit)
					}
				})
				mc.Event("task-end", func() {
					m.ended[i]++
					m.running--
				})
				relay.Send(types.TaskResults{id: errs[i]})
			})
		}, limit)
		m.drive(q, res, way, batches, func(i int) types.Task { return &fakeTask{i: i} }, func(i int) error { return errs[i] })
		for i := range m.started {
			if m.started[i] != 1 {
				x.Violate("C24", "task %d was executed %d times", i, m.started[i])
			}
		}
	})
}

type realTarget struct {
	name  string
	limit int
	kinds []string
	make  func(out *writer) types.Target
}

// A writer notes what is written.
type writer struct{ lines []string }

func (w *writer) Write(p []byte) (int, error) {
	w.lines = append(w.lines, string(p))
	return len(p), nil
}

func realTargets() (out []realTarget) {
	for limit := 1; limit <= 3; limit++ {
		out = append(out, realTarget{fmt.Sprintf("demo target with limit %d", limit), limit, []string{"demo/echo", "demo/fail", "demo/rev", "demo/rot13", "demo/sleep", "sh"}, func(w *writer) types.Target {
			t := (&demo.TargetFactory{Stdout: w}).NewTarget().(*demo.Target)
			t.MaxConcurrency = limit
			t.String = "ab"
			return t
		}})
	}
	return append(out,
		realTarget{"pg target", 1, []string{"pg", "sh"}, func(w *writer) types.Target { return (&pg.TargetFactory{}).NewTarget() }},
		realTarget{"sh target", 1, []string{"sh", "pg"}, func(w *writer) types.Target { return (&sh.TargetFactory{}).NewTarget() }})
}

func multisets(kinds []string, n int) (out [][]string) {
	if n == 0 {
		return [][]string{nil}
	}
	for i, k := range kinds {
		for _, rest := range multisets(kinds[i:], n-1) {
			out = append(out, append([]string{k}, rest...))
		}
	}
	return
}

func newTask(kind string) types.Task {
	switch kind {
	case "demo/echo":
		return &demo.Echo{}
	case "demo/fail":
		return &demo.Fail{}
	case "demo/rev":
		return &demo.Rev{}
	case "demo/rot13":
		return &demo.Rot13{}
	case "demo/sleep":
		return &demo.Sleep{Seconds: 1}
	case "pg":
		return &pg.Task{SQL: "SELECT 1"}
	case "sh":
		return &sh.Task{Args: []string{"true"}}
	}
	panic(kind)
}

func targetCase(r *result, name string, t realTarget, kinds []string, sizes []int, way int) {
	batches := number(sizes)
	explore(r, name, mc.Options{Preempt: -1, MapDevs: 1}, func(x *mc.Exec) {
		w := &writer{}
		m := &monitor{x: x}
		m.hooks(len(kinds))
		m.x.MonKey = func() uint64 { return mc.HashString(fmt.Sprint(w.lines)) ^ m.key() }
		x.OnState = func(x *mc.Exec) {
			n := 0
			for _, l := range x.Enabled() {
				if l == "sleep" {
					n++
				}
			}
			if n > t.limit {
				x.Violate("C24", "%d tasks are executed at once, the limit is %d", n, t.limit)
			}
		}
		target := t.make(w)
		own := strings.Fields(t.name)[0]
		q, res := target.Start()
		m.drive(q, res, way, batches, func(i int) types.Task { return newTask(kinds[i]) }, func(i int) error {
			class, _, _ := strings.Cut(kinds[i], "/")
			switch {
			case kinds[i] == "demo/fail":
				return demo.ErrFail
			case class != own:
				return anyError
			}
			return nil
		})
		var want []string
		for _, k := range kinds {
			if k == "demo/echo" && own == "demo" {
				want = append(want, "")
			}
		}
		if len(want) != len(w.lines) {
			x.Violate("C24", "%d lines are printed instead of %d", len(w.lines), len(want))
		}
		if d, ok := target.(*demo.Target); ok {
			s := []byte("ab")
			for _, k := range kinds {
				switch k {
				case "demo/rev":
					s[0], s[1] = s[1], s[0]
				case "demo/rot13":
					for i := range s {
						if s[i] < 'n' {
							s[i] += 13
						} else {
							s[i] -= 13
						}
					}
				}
			}
			if d.String != string(s) {
				x.Violate("C24", "the string is %q instead of %q after %s", d.String, s, kinds)
			}
		}
	})
	sort.Strings(kinds)
}
