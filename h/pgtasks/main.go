//go:build go1.22

// Command pgtasks decides C29: runbooks with database tasks, executed by the
// real code over the real driver, with a server that answers the statements
// in every order.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

type result = cases.Result

func main() {
	cases.Main(map[string]cases.Prop{
		"C29": {Level: "model_checking", Cases: casesC29, Prepare: func(bool) {
			for k, v := range map[string]string{"PGHOST": "127.0.0.9", "PGPORT": "1", "PGUSER": "envuser", "PGDATABASE": "envdb", "PGPASSFILE": "/nonexistent"} {
				os.Setenv(k, v)
			}
		},
			Notes: map[string]any{"states_are": "runs of a runbook with an order of the server's answers, executed by the real runner over the real driver", "transitions_are": "answers of the server"},
			Assume: []string{
				"no PostgreSQL is available here: the server is a model of the protocol that answers any statement as the case says",
				"between two answers the program is left alone until every target that has a task to execute has sent a statement"}},
	})
}

func scratch() string {
	d := filepath.Join(cases.Tmp, fmt.Sprint("p", os.Getpid()))
	cases.Must(os.MkdirAll(d, 0o755))
	return d
}

// ---- the server's answers

func complete(tag string) pgsrv.Raw { return pgsrv.Raw{T: 'C', B: append([]byte(tag), 0)} }

var notice = func() pgsrv.Raw {
	m := pgsrv.ErrorReport("NOTICE", "00000", "just so you know")
	m.T = 'N'
	return m
}()

func rows(n int) (out []pgsrv.Raw) {
	d := []byte{0, 1, 'c', 0}
	d = append(d, make([]byte, 6)...)
	d = binary.BigEndian.AppendUint32(d, 25)
	d = append(d, 255, 255, 255, 255, 255, 255, 0, 0)
	out = append(out, pgsrv.Raw{T: 'T', B: d})
	for i := 0; i < n; i++ {
		b := []byte{0, 1}
		b = binary.BigEndian.AppendUint32(b, 1)
		out = append(out, pgsrv.Raw{T: 'D', B: append(b, 'x')})
	}
	return append(out, complete(fmt.Sprintf("SELECT %d", n)))
}

func cat(l ...any) (out []pgsrv.Raw) {
	for _, x := range l {
		switch x := x.(type) {
		case pgsrv.Raw:
			out = append(out, x)
		case []pgsrv.Raw:
			out = append(out, x...)
		}
	}
	return
}

func fail(sev, code string) pgsrv.Raw { return pgsrv.ErrorReport(sev, code, "it fails") }

// An answer ends a statement.
type answer struct {
	name  string
	ok    bool
	reply pgsrv.Reply
}

var answers = []answer{
	{"done", true, pgsrv.Reply{Msgs: cat(complete("CREATE TABLE"))}},
	{"error", false, pgsrv.Reply{Msgs: cat(fail("ERROR", "42601"))}},
	{"error in the second statement", false, pgsrv.Reply{Msgs: cat(complete("INSERT 0 1"), notice, fail("ERROR", "23505"))}},
	{"lost", false, pgsrv.Reply{End: "close"}},
	{"rows", true, pgsrv.Reply{Msgs: cat(rows(2))}},
	{"two statements and notices", true, pgsrv.Reply{Msgs: cat(notice, rows(1), notice, complete("UPDATE 0"), notice)}},
	{"nothing", true, pgsrv.Reply{Msgs: cat(pgsrv.Raw{T: 'I'})}},
	{"error after rows", false, pgsrv.Reply{Msgs: cat(rows(3)[:3], fail("ERROR", "22012"))}},
	{"fatal", false, pgsrv.Reply{Msgs: cat(fail("FATAL", "57P01")), End: "close"}},
	{"reset", false, pgsrv.Reply{Msgs: cat(rows(1)[:1]), End: "reset"}},
	{"setting changed", true, pgsrv.Reply{Msgs: cat(complete("SET"), pgsrv.Raw{T: 'S', B: []byte("TimeZone\x00UTC\x00")})}},
	{"lost after success", false, pgsrv.Reply{Msgs: cat(complete("INSERT 0 1")), End: "close"}},
	{"many rows", true, pgsrv.Reply{Msgs: cat(rows(5000))}},
}

// ---- one run

type task struct {
	id     string
	target int
	after  []int // indexes of other tasks
	sql    string
	answer int
}

type config struct {
	limits []int // of each target
	tasks  []task
	name   string // if it is large: only some orders of the answers are tried
}

func (c config) String() string {
	if c.name != "" {
		return c.name
	}
	var b strings.Builder
	fmt.Fprintf(&b, "limits %v", c.limits)
	for _, t := range c.tasks {
		fmt.Fprintf(&b, "; %s on %d", t.id, t.target)
		for _, d := range t.after {
			fmt.Fprintf(&b, " after %s", c.tasks[d].id)
		}
		fmt.Fprintf(&b, ": %s", answerOf(t.answer).name)
	}
	return b.String()
}

func (c config) document(ports []uint16) string {
	targets, tasks := map[string]any{}, map[string]any{}
	for i, n := range c.limits {
		m := map[string]any{"host": "127.0.0.1", "port": ports[i], "sslmode": "disable", "username": fmt.Sprint("user", i), "database": fmt.Sprint("db", i)}
		if n > 0 {
			m["concurrency"] = n
		}
		targets[fmt.Sprint("t", i)] = map[string]any{"class": "pg", "config": m}
	}
	for i, t := range c.tasks {
		m := map[string]any{"target": fmt.Sprint("t", t.target) + []string{"", "/exec"}[i%2], "config": map[string]any{"sql": t.sql}}
		var after []string
		for _, d := range t.after {
			after = append(after, c.tasks[d].id)
		}
		if after != nil {
			m["after"] = after
		}
		tasks[t.id] = m
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	cases.Must(e.Encode(map[string]any{"targets": targets, "tasks": tasks}))
	return b.String()
}

type arrival struct {
	srv, conn int
	sql       string
	reply     chan pgsrv.Reply
	task      int
}

type servers struct {
	srvs []*pgsrv.Server
	mu   sync.Mutex
	to   chan *arrival // of the current run
	base []int         // connections of earlier runs
}

var theServers *servers

func getServers() *servers {
	if theServers != nil {
		return theServers
	}
	s := &servers{}
	for i := 0; i < 2; i++ {
		i := i
		l, err := pgsrv.Listen("127.0.0.1")
		cases.Must(err)
		s.srvs = append(s.srvs, pgsrv.Serve(l, func(n int) pgsrv.Plan {
			s.mu.Lock()
			to := s.to
			s.mu.Unlock()
			return pgsrv.Plan{DB: pgsrv.Sample(), Simple: func(sql string) pgsrv.Reply {
				a := &arrival{srv: i, conn: n, sql: sql, reply: make(chan pgsrv.Reply, 1)}
				to <- a
				return <-a.reply
			}}
		}))
	}
	theServers = s
	return s
}

const patience = 20 * time.Second

// run executes the runbook and answers in the order that path says; it
// returns how many answers were possible at every step.
func run(r *result, c config, path []int, bad func(f string, a ...any)) (widths []int) {
	s := getServers()
	to := make(chan *arrival, 1024)
	s.mu.Lock()
	s.to = to
	s.mu.Unlock()
	var ports []uint16
	var base []int
	for _, x := range s.srvs {
		ports = append(ports, x.Port())
		base = append(base, len(x.Logs()))
	}
	file := filepath.Join(scratch(), "book.json")
	cases.Must(os.WriteFile(file, []byte(c.document(ports)), 0o644))
	var so, se bytes.Buffer
	done := make(chan error, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Errorf("it panics: %v", x)
				bad("it panics: %v", x)
			}
		}()
		done <- runbook.Run(&sys.IO{Log: zap.NewNop().Sugar(), Stdout: &so, Stderr: &se}, file)
	}()
	r.State()

	state := make([]int, len(c.tasks)) // 0 not sent, 1 sent, 2 succeeded, 3 failed
	failed := false
	var waiting []*arrival
	var end error
	ended := false
	// how many statements are waiting for an answer at least
	expected := func() (n int) {
		ready := make([]int, len(c.limits))
		for i, t := range c.tasks {
			ok := state[i] < 2
			for _, d := range t.after {
				ok = ok && state[d] == 2
			}
			if ok {
				ready[t.target]++
			}
		}
		for _, k := range ready {
			n += min(k, 1) // a target works as long as it has work
		}
		return
	}
	arrive := func(a *arrival) {
		a.task = -1
		for i, t := range c.tasks {
			if t.sql == a.sql && t.target == a.srv {
				a.task = i
			}
		}
		if a.task < 0 {
			bad("server %d gets %q", a.srv, a.sql)
		} else {
			t := c.tasks[a.task]
			if state[a.task] != 0 {
				bad("task %s is sent twice", t.id)
			}
			for _, d := range t.after {
				if state[d] != 2 {
					bad("task %s is sent before %s has succeeded", t.id, c.tasks[d].id)
				}
			}
			state[a.task] = 1
		}
		waiting = append(waiting, a)
		n := 0
		for _, w := range waiting {
			if w.srv == a.srv {
				n++
			}
		}
		if n > max(1, c.limits[a.srv]) {
			bad("target %d executes %d tasks at once", a.srv, n)
		}
		sort.Slice(waiting, func(i, j int) bool { return waiting[i].task < waiting[j].task })
	}
	deadline := time.NewTimer(patience)
	defer deadline.Stop()
	for !ended {
		if len(waiting) > 0 && (failed || len(waiting) >= expected()) {
			k := 0
			if len(widths) < len(path) {
				k = path[len(widths)] % len(waiting)
				if path[len(widths)] == 1<<40-1 {
					k = len(waiting) - 1 // always the last one
				}
			}
			widths = append(widths, len(waiting))
			a := waiting[k]
			waiting = append(append([]*arrival{}, waiting[:k]...), waiting[k+1:]...)
			if a.task < 0 {
				a.reply <- pgsrv.Reply{Msgs: cat(complete("SELECT 0"))}
				continue
			}
			x := answerOf(c.tasks[a.task].answer)
			r.Count("transitions", 1)
			state[a.task] = 3
			if x.ok {
				state[a.task] = 2
			} else {
				failed = true
			}
			a.reply <- x.reply
			continue
		}
		select {
		case a := <-to:
			arrive(a)
		case end = <-done:
			ended = true
		case <-deadline.C:
			bad("it waits although a task could be executed, or does not end")
			for len(waiting) > 0 {
				waiting[0].reply <- pgsrv.Reply{End: "close"}
				waiting = waiting[1:]
			}
			failed = true
			select {
			case <-done:
			case a := <-to:
				a.reply <- pgsrv.Reply{End: "close"}
			case <-time.After(patience):
			}
			return
		}
	}
	for _, a := range waiting {
		bad("it ends while task %d is executed", a.task)
		a.reply <- pgsrv.Reply{End: "close"}
	}
	switch {
	case failed && end == nil:
		bad("it reports success although a task failed")
	case !failed && end != nil:
		bad("it fails although no task failed: %v", end)
	}
	for i, x := range state {
		if x == 0 && !failed {
			bad("task %s is not executed", c.tasks[i].id)
		}
	}
	if so.Len()+se.Len() > 0 {
		bad("it prints %q %q", so.String(), se.String())
	}
	for i, x := range s.srvs {
		for _, l := range x.Logs()[base[i]:] {
			if !l.Closed(patience) {
				bad("a session is still open at the end")
				continue
			}
			if l.Startup["user"] != fmt.Sprint("user", i) || l.Startup["database"] != fmt.Sprint("db", i) {
				bad("it connects to server %d with %v", i, l.Startup)
			}
		}
	}
	return
}

// explore tries every order of the answers.
func explore(r *result, c config) {
	said := map[string]bool{}
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		if !said[m] {
			said[m] = true
			r.Add(c.String()+": "+m, "%s: %s", c, m)
		}
	}
	if c.name != "" {
		for _, next := range []func(i int) int{func(int) int { return 0 }, func(int) int { return 1<<40 - 1 }, func(i int) int { return i }, func(i int) int { return i % 2 * (1<<40 - 1) }} {
			var path []int
			for i := range c.tasks {
				path = append(path, next(i))
			}
			run(r, c, path, bad)
		}
		return
	}
	var path []int
	for {
		w := run(r, c, path, bad)
		if len(r.Viol) > 5 {
			return
		}
		// the next path
		for len(path) < len(w) {
			path = append(path, 0)
		}
		path = path[:len(w)]
		i := len(path) - 1
		for i >= 0 && path[i]+1 >= w[i] {
			i--
		}
		if i < 0 {
			return
		}
		path[i]++
		path = path[:i+1]
	}
}

// ---- cases

// graphs are all dependencies on earlier tasks.
func graphs(n int) (out [][][]int) {
	var pairs [][2]int
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	for m := 0; m < 1<<len(pairs); m++ {
		g := make([][]int, n)
		for k, p := range pairs {
			if m>>k&1 == 1 {
				g[p[0]] = append(g[p[0]], p[1])
			}
		}
		out = append(out, g)
	}
	return
}

func casesC29() (out []cases.Case) {
	add := func(name string, cs []config) {
		const size = 24
		for i := 0; i < len(cs); i += size {
			part := cs[i:min(i+size, len(cs))]
			out = append(out, cases.Case{Name: fmt.Sprintf("%s, from %d", name, i), Run: func(r *result) {
				for _, c := range part {
					explore(r, c)
				}
			}})
		}
	}
	mk := func(g [][]int, limits []int, target func(i int) int, ans func(i int) int) (c config) {
		c.limits = limits
		for i, after := range g {
			c.tasks = append(c.tasks, task{id: fmt.Sprintf("task%d", i), target: target(i), after: after, sql: fmt.Sprintf("SELECT %d", i), answer: ans(i)})
		}
		return
	}
	zero := func(int) int { return 0 }
	digits := func(x, base int) func(int) int {
		return func(i int) int {
			y := x
			for ; i > 0; i-- {
				y /= base
			}
			return y % base
		}
	}
	pow := func(a, n int) int {
		x := 1
		for ; n > 0; n-- {
			x *= a
		}
		return x
	}
	kinds3, kinds4 := 7, 2
	if cases.Thorough {
		kinds3, kinds4 = len(answers)-1, 4
	}
	var l []config
	for n := 1; n <= 3; n++ {
		k := kinds3
		if n < 3 {
			k = len(answers)
		}
		for _, g := range graphs(n) {
			for limit := 0; limit <= 4; limit++ {
				for x := 0; x < pow(k, n); x++ {
					l = append(l, mk(g, []int{limit}, zero, digits(x, k)))
				}
			}
		}
	}
	add("one target", l)
	l = nil
	for _, g := range graphs(4) {
		for limit := 2; limit <= 4; limit++ {
			for x := 0; x < pow(kinds4, 4); x++ {
				if cases.Thorough || x == 0 || x&(x-1) == 0 { // at most one failure
					l = append(l, mk(g, []int{limit}, zero, digits(x, kinds4)))
				}
			}
		}
	}
	add("four tasks", l)
	l = nil
	for _, g := range graphs(3) {
		for a := 1; a <= 2; a++ {
			for b := 1; b <= 2; b++ {
				for place := 0; place < 8; place++ {
					for x := 0; x < 64; x++ {
						l = append(l, mk(g, []int{a, b}, digits(place, 2), digits(x, 4)))
					}
				}
			}
		}
	}
	add("two targets", l)
	l = nil
	for _, g := range graphs(4) {
		for place := 0; place < 16; place++ {
			for x := 0; x < 16; x++ {
				if cases.Thorough || x&(x-1) == 0 { // at most one failure
					l = append(l, mk(g, []int{1 + place%2, 1 + x%3}, digits(place, 2), digits(x, 2)))
				}
			}
		}
	}
	add("two targets, four tasks", l)
	l = nil
	for i, sql := range sqls() {
		for limit := 1; limit <= 2; limit++ {
			for a := range answers[:5] {
				l = append(l, config{limits: []int{limit}, tasks: []task{{id: fmt.Sprint("sql", i), sql: sql, answer: a}, {id: "other", sql: "SELECT 'other'"}}})
			}
		}
	}
	add("statements", l)
	l = nil
	for i := range more {
		a := len(answers) + i
		for limit := 1; limit <= 2; limit++ {
			for _, g := range [][][]int{{nil}, {nil, {0}}, {nil, nil}, {nil, nil, {1}}} {
				l = append(l, mk(g, []int{limit}, zero, func(i int) int {
					if i == 0 {
						return a
					}
					return 0
				}))
			}
		}
	}
	add("errors and tags", l)
	out = append(out, cases.Case{Name: "a statement with a zero byte", Run: zeroByte})
	out = append(out, settings()...)
	out = append(out, many()...)
	return
}

// many are runbooks of many tasks, with at most one that fails.
func many() (out []cases.Case) {
	counts := []int{9, 40}
	if cases.Thorough {
		counts = []int{5, 9, 17, 40, 100, 200}
	}
	shapes := []struct {
		name  string
		after func(i, n int) []int
	}{
		{"in a chain", func(i, n int) []int {
			if i == 0 {
				return nil
			}
			return []int{i - 1}
		}},
		{"on their own", func(i, n int) []int { return nil }},
		{"after one", func(i, n int) []int {
			if i == 0 {
				return nil
			}
			return []int{0}
		}},
		{"and one after all", func(i, n int) (l []int) {
			if i == n-1 {
				for j := 0; j < i; j++ {
					l = append(l, j)
				}
			}
			return
		}},
		{"in two chains", func(i, n int) []int {
			if i < 2 {
				return nil
			}
			return []int{i - 2}
		}},
	}
	for _, n := range counts {
		for _, s := range shapes {
			for _, limits := range [][]int{{0}, {3}, {20}, {2, 10}} {
				out = append(out, cases.Case{Name: fmt.Sprintf("%d tasks %s, limits %v", n, s.name, limits), Run: func(r *result) {
					for _, bad := range []int{-1, 0, n / 2, n - 1} {
						for _, a := range []int{1, 3} {
							if bad < 0 && a > 1 {
								continue
							}
							c := config{limits: limits, name: fmt.Sprintf("%d tasks %s, limits %v, task %d fails: %s", n, s.name, limits, bad, answers[a].name)}
							for i := 0; i < n; i++ {
								t := task{id: fmt.Sprintf("task%d", i), target: i % len(limits), after: s.after(i, n), sql: fmt.Sprintf("SELECT %d", i), answer: []int{0, 4, 5, 6, 10}[i%5]}
								if i == bad {
									t.answer = a
								}
								c.tasks = append(c.tasks, t)
							}
							explore(r, c)
						}
					}
				}})
			}
		}
	}
	return
}

// sqls are statements that have to arrive as they are written.
func sqls() (out []string) {
	out = []string{" ", ";", "select 1;", " select 1 ", "select 1; select 2", "\tselect\n1\r\n", "select 'ü€😀'", `select "a""b", 'it''s', E'\n\\'`,
		"select $1", "select '$1', $$a$$, $x$ ' $x$", "-- only a comment", "select 1 -- %s %d %", "/* a /* nested */ comment */ select 1", "select '{{.}} ${HOME} `x`'",
		"BEGIN; COMMIT", "select ?", "select :name, @x", "<>&", "\u00a0select\u2028", "select '\x01\x7f'"}
	for _, n := range []int{1000, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 70001, 1 << 20} {
		s := fmt.Sprintf("select %d, '", n)
		out = append(out, s+strings.Repeat("x", n-len(s)-1)+"'")
	}
	// every character of ASCII, and pairs of the ones that could be special
	for c := 1; c < 128; c++ {
		out = append(out, "select '"+string(rune(c))+"'", string(rune(c)))
	}
	return
}

// zeroByte sends a statement that PostgreSQL can't receive.
func zeroByte(r *result) {
	for _, sql := range []string{"select 1\x00; drop table t", "\x00", "select 1\x00"} {
		s := getServers()
		to := make(chan *arrival, 64)
		s.mu.Lock()
		s.to = to
		s.mu.Unlock()
		c := config{limits: []int{1}, tasks: []task{{id: "zero", sql: sql}}}
		file := filepath.Join(scratch(), "book.json")
		cases.Must(os.WriteFile(file, []byte(c.document([]uint16{s.srvs[0].Port()})), 0o644))
		var o bytes.Buffer
		var err error
		stop := make(chan bool)
		go func() {
			for {
				select {
				case a := <-to:
					a.reply <- answers[0].reply
				case <-stop:
					return
				}
			}
		}()
		problem := cases.Guarded(func() {
			err = runbook.Run(&sys.IO{Log: zap.NewNop().Sugar(), Stdout: &o, Stderr: &o}, file)
		})
		close(stop)
		r.State()
		if problem != "" {
			r.Add("zero byte: "+problem, "the statement %q: %s", sql, problem)
		} else if err == nil {
			r.Add("zero byte", "the statement %q is reported as executed, although the server can not have received it", sql)
		}
	}
}
