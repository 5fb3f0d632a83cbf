//go:build go1.21

// Command runner explores every interleaving of runbook runs (C01-C06).
package main

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zzverif/ev"
	"github.com/sjansen/pgutil/internal/zzverif/mc"
	"github.com/sjansen/pgutil/internal/zzverif/pool"
)

// cfg is one runbook to run.
type cfg struct {
	Deps      [][]int // Deps[i]: indices of tasks before i; len(Names) = unknown task
	Target    []int
	Limits    []int
	Fail      int // bit mask of failing tasks
	StartFail int // bit mask of targets that fail to start
	MapRev    bool
	MapDevs   int
	NamesRev  bool   // task names in descending order
	EmptyName bool   // the first task is named ""
	Messages  bool   // tasks have messages
	Preempt   int    // stepwise: number of preemptions
	Shape     string // of a large runbook
	Policy    int    // > 0: only under this fixed scheduler
	Kind      int    // what kind of errors failures are, see kinds
	Bare      bool   // failures are that error itself, not one that wraps it
	Msg       int    // 1: all tasks have the same message, 2: long ones of several lines
	List      int    // how the lists of dependencies are written, see after
}

// lists is the number of ways to write the lists of dependencies.
const lists = 4

// after is the list of dependencies of task i. The order of a list and
// repetitions in it mean nothing.
func (c cfg) after(i int) []string {
	var ss []string
	for _, d := range c.Deps[i] {
		ss = append(ss, c.name(d))
	}
	if len(ss) == 0 {
		return nil
	}
	last := len(ss) - 1
	switch c.List {
	case 1: // descending
		for i, j := 0, last; i < j; i, j = i+1, j-1 {
			ss[i], ss[j] = ss[j], ss[i]
		}
	case 2: // a a b c
		ss = append(ss[:1:1], ss...)
	case 3: // c b a c
		for i, j := 0, last; i < j; i, j = i+1, j-1 {
			ss[i], ss[j] = ss[j], ss[i]
		}
		ss = append(ss, ss[0])
	}
	return ss
}

func (c cfg) String() string {
	if c.Shape != "" {
		return fmt.Sprintf("%s scheduler=%d names=%v", c.Shape, c.Policy, c.NamesRev)
	}
	return fmt.Sprintf("tasks=%d after=%v on=%v limits=%v fail=%b startfail=%b rev=%v devs=%d names=%v%v lists=%d errors=%d",
		len(c.Target), c.Deps, c.Target, c.Limits, c.Fail, c.StartFail, c.MapRev, c.MapDevs, c.NamesRev, c.EmptyName, c.List, c.Kind) + [2]string{"", " bare"}[b2i(c.Bare)] + [3]string{"", " same message", " long messages"}[c.Msg]
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (c cfg) name(i int) string {
	n := len(c.Target)
	if i >= n {
		return "nosuch"
	}
	if c.EmptyName && i == 0 {
		return ""
	}
	if c.NamesRev {
		i = n - 1 - i
	}
	if n > 26 {
		return fmt.Sprintf("task%04d.", i)
	}
	return string(rune('a' + i))
}

// fails says whether task i fails.
func (c cfg) fails(i int) bool {
	if c.Shape != "" {
		return i+1 == c.Fail
	}
	return c.Fail&(1<<i) != 0
}

func (c cfg) acyclic() bool {
	n := len(c.Target)
	done := make([]bool, n)
	for k := 0; k <= n; k++ {
		progress := false
		for i := range c.Deps {
			if done[i] {
				continue
			}
			ok := true
			for _, d := range c.Deps[i] {
				if d >= n || !done[d] {
					ok = false
				}
			}
			if ok {
				done[i], progress = true, true
			}
		}
		if !progress {
			break
		}
	}
	for _, d := range done {
		if !d {
			return false
		}
	}
	return true
}

// message is the message of task i; every third task has none.
func (c cfg) message(i int) string {
	switch {
	case !c.Messages:
		return ""
	case c.Msg == 1:
		return "<the same %d message>"
	case i%3 == 2:
		return ""
	case c.Msg == 2:
		return "<several\nlines\t\"" + strings.Repeat("quite long ", 400) + c.name(i) + "\" \\n %s>"
	}
	return "<100%d " + c.name(i) + "%!>"
}

type monitor struct {
	c       cfg
	x       *mc.Exec
	valid   bool
	started []int
	ended   []int // 1 ok 2 failed
	told    []int // how often its message was shown
	running []int
	tstate  []int // 1 starting 2 started 3 failed 4 stopped
	ret     bool
	err     error
	nstart  int
	sfailed bool
}

func (m *monitor) key() uint64 {
	h := uint64(1)
	for _, s := range [][]int{m.started, m.ended, m.told, m.running, m.tstate} {
		for _, v := range s {
			h = mc.Mix(h, uint64(v)+1)
		}
	}
	if m.ret {
		h = mc.Mix(h, 99)
	}
	return h
}

type taskCfg struct {
	idx int
}

func (t *taskCfg) Check() error { return nil }

type target struct {
	m   *monitor
	idx int
}

func (t *target) Analyze() error        { return nil }
func (t *target) ConcurrencyLimit() int { return t.m.c.Limits[t.idx] }
func (t *target) NewTaskConfig(string) (types.TaskConfig, error) {
	return nil, errors.New("unused")
}

// kinds of errors; what a failure is must not depend on them
var kinds = []error{nil, context.Canceled, context.DeadlineExceeded, io.EOF, scheduler.ErrNoPendingTasks, io.ErrUnexpectedEOF, os.ErrNotExist,
	&exec.ExitError{}, os.ErrClosed, exec.ErrNotFound, syscall.EPIPE, &os.PathError{Op: "open", Path: "x", Err: syscall.EINTR}, oddError{"odd", ""}, emptyError{}}

// An oddError can't be compared, an emptyError says nothing.
type oddError []string

func (oddError) Error() string { return "odd" }

type emptyError struct{}

func (emptyError) Error() string { return "" }

type failure struct {
	text string
	kind error
}

func (f failure) Error() string { return f.text }
func (f failure) Unwrap() error { return f.kind }

func (c cfg) failure(text string) error {
	if c.Bare {
		return kinds[c.Kind]
	}
	return failure{text, kinds[c.Kind]}
}

func (t *target) Start() error {
	m := t.m
	var err error
	mc.Event("target-start", func() {
		switch m.tstate[t.idx] {
		case 0:
		default:
			m.x.Violate("C05", "target t%d started again (state %d)", t.idx, m.tstate[t.idx])
		}
		if m.ret {
			m.x.Violate("C05", "target t%d started after the run had returned", t.idx)
		}
		if m.c.StartFail&(1<<t.idx) != 0 {
			m.tstate[t.idx] = 3
			m.sfailed = true
			err = m.c.failure(fmt.Sprintf("start of t%d failed", t.idx))
			if m.nstart > 0 {
				m.x.Violate("C05", "a task was executed although target t%d failed to start", t.idx)
			}
			return
		}
		m.tstate[t.idx] = 2
	})
	return err
}

func (t *target) Stop() error {
	m := t.m
	mc.Event("target-stop", func() {
		if m.tstate[t.idx] != 2 {
			m.x.Violate("C05", "target t%d stopped in state %s", t.idx,
				[]string{"never started", "", "", "failed to start", "already stopped"}[m.tstate[t.idx]])
		}
		if m.running[t.idx] != 0 {
			m.x.Violate("C05", "target t%d stopped while it executes a task", t.idx)
		}
		if m.ret {
			m.x.Violate("C05", "target t%d stopped after the run had returned", t.idx)
		}
		m.tstate[t.idx] = 4
	})
	return nil
}

func (t *target) Handle(ctx context.Context, tc types.TaskConfig) error {
	m := t.m
	x, ok := tc.(*taskCfg)
	if !ok {
		m.x.Violate("C01", "a task was executed with the wrong settings: %v", tc)
		return m.c.failure("wrong settings")
	}
	i := x.idx
	mc.Event("task-start "+m.c.name(i), func() {
		nm := m.c.name(i)
		if m.c.Msg == 1 && m.c.Messages {
			if m.nstart >= m.told[0] {
				m.x.Violate("C31", "task %q starts, it is number %d, after the message of all tasks was shown %d times", nm, m.nstart+1, m.told[0])
			}
		} else if m.c.message(i) != "" && m.told[i] != 1 {
			m.x.Violate("C31", "task %q starts after its message was shown %d times", nm, m.told[i])
		}
		m.nstart++
		if m.started[i] > 0 {
			m.x.Violate("C01", "task %q executed more than once", nm)
		}
		m.started[i]++
		if m.c.Target[i] != t.idx {
			m.x.Violate("C01", "task %q executed by target t%d instead of t%d", nm, t.idx, m.c.Target[i])
		}
		for _, d := range m.c.Deps[i] {
			if d >= len(m.ended) || m.ended[d] != 1 {
				m.x.Violate("C01", "task %q started before %q had finished successfully", nm, m.c.name(d))
			}
		}
		if !m.valid {
			m.x.Violate("C03", "task %q executed although the dependencies are invalid", nm)
		}
		if m.tstate[t.idx] != 2 {
			m.x.Violate("C05", "task %q executed on a target in state %s", nm,
				[]string{"never started", "", "", "failed to start", "stopped"}[m.tstate[t.idx]])
		}
		if m.sfailed {
			m.x.Violate("C05", "task %q executed although a target failed to start", nm)
		}
		if m.ret {
			m.x.Violate("C05", "task %q executed after the run had returned", nm)
		}
		m.running[t.idx]++
		if m.running[t.idx] > m.c.Limits[t.idx] {
			m.x.Violate("C04", "target t%d executes %d tasks at once, its limit is %d", t.idx, m.running[t.idx], m.c.Limits[t.idx])
		}
	})
	var err error
	mc.Event("task-end "+m.c.name(i), func() {
		m.running[t.idx]--
		if m.c.fails(i) {
			m.ended[i] = 2
			err = m.c.failure("task " + m.c.name(i) + " failed")
		} else {
			m.ended[i] = 1
		}
		if m.ret {
			m.x.Violate("C05", "task %q still executing after the run had returned", m.c.name(i))
		}
	})
	return err
}

func body(c cfg) func(*mc.Exec) {
	return func(x *mc.Exec) {
		n, nt := len(c.Target), len(c.Limits)
		m := &monitor{c: c, x: x, valid: c.acyclic(), started: make([]int, n), ended: make([]int, n), told: make([]int, n),
			running: make([]int, nt), tstate: make([]int, nt)}
		x.MonKey = m.key
		x.DeadTag = "C02"
		x.LeakTag = "C05"
		targets := types.Targets{}
		for i := range c.Limits {
			targets[fmt.Sprintf("t%d", i)] = &target{m, i}
		}
		tasks := types.Tasks{}
		for i := range c.Target {
			tasks[c.name(i)] = &types.Task{Target: fmt.Sprintf("t%d", c.Target[i]), After: c.after(i), Message: c.message(i), Config: &taskCfg{i}}
		}
		if c.Fail == 0 && c.StartFail == 0 && m.valid {
			x.OnState = func(x *mc.Exec) {
				if m.ret {
					return
				}
				if !x.AllEnabledAre(func(l string) bool { return strings.HasPrefix(l, "task-end ") }) {
					return
				}
				for i := range c.Target {
					if m.started[i] > 0 || m.tstate[c.Target[i]] != 2 || m.running[c.Target[i]] > 0 {
						continue
					}
					ok := true
					for _, d := range c.Deps[i] {
						ok = ok && m.ended[d] == 1
					}
					if ok {
						x.Violate("C06", "task %q can run and its target t%d is idle, but it waits for tasks elsewhere to end", c.name(i), c.Target[i])
					}
				}
			}
		}
		x.OnReturn = func() { m.ret = true; m.onReturn() }
		x.Outcome = func() string {
			s := fmt.Sprintf("err=%v ", m.err)
			for i := range m.ended {
				s += fmt.Sprintf("%s%d", c.name(i), m.ended[i])
			}
			return s
		}
		log := zap.New(&tasklog{m: m}).Sugar()
		used := false
		used, m.err = runbook.VerifRun(log, targets, tasks)
		if !used {
			fmt.Fprintln(os.Stderr, "harness: running a runbook does not call the parser's Parse")
			os.Exit(3)
		}
	}
}

func (m *monitor) onReturn() {
	c := m.c
	for i, n := range m.told {
		if c.Msg == 1 {
			if n > m.nstart {
				m.x.Violate("C31", "the message of all tasks was shown %d times, but %d tasks were executed", n, m.nstart)
			}
			break
		}
		if n > m.started[i] {
			m.x.Violate("C31", "the message of task %q was shown, but the task was not executed", c.name(i))
		}
	}
	for i, s := range m.tstate {
		if s == 2 {
			m.x.Violate("C05", "target t%d was started but not stopped when the run returned", i)
		}
		if m.running[i] > 0 {
			m.x.Violate("C05", "target t%d still executes a task when the run returns", i)
		}
	}
	if !m.valid {
		if m.err == nil {
			m.x.Violate("C03", "invalid dependencies, but the run reported success")
		}
		return
	}
	all, anyFail := true, m.sfailed
	var fails []string
	for i := range c.Target {
		switch m.ended[i] {
		case 0:
			all = false
		case 2:
			anyFail = true
			fails = append(fails, "task "+c.name(i)+" failed")
		}
	}
	for i := range m.tstate {
		if m.tstate[i] == 3 {
			fails = append(fails, fmt.Sprintf("start of t%d failed", i))
		}
	}
	allStarted := true
	for _, s := range m.tstate {
		if s != 4 && s != 2 {
			allStarted = false
		}
	}
	if m.err == nil {
		if anyFail {
			m.x.Violate("C03", "the run reported success although %v", fails)
		} else if !all || !allStarted {
			m.x.Violate("C03", "the run reported success although not every task was executed: %v", m.ended)
		}
	} else {
		if !anyFail {
			m.x.Violate("C03", "every task and target succeeded so far, but the run returned %v", m.err)
		} else {
			ok := false
			if c.Bare {
				ok = m.err.Error() == kinds[c.Kind].Error() || strings.Contains(m.err.Error(), kinds[c.Kind].Error())
			}
			for _, f := range fails {
				if strings.Contains(m.err.Error(), f) {
					ok = true
				}
			}
			if !ok {
				m.x.Violate("C03", "the run returned %v, but what failed is %v", m.err, fails)
			}
		}
	}
	if c.Fail == 0 && c.StartFail == 0 && !all {
		m.x.Violate("C02", "the run ended but not every task was executed: %v", m.ended)
	}
}

// tasklog notices messages of tasks among everything that is shown to users.
type tasklog struct{ m *monitor }

func (l *tasklog) shown(level, text string) {
	m := l.m
	if m.x != mc.Current() {
		return
	}
	if m.c.Msg == 1 && m.c.Messages {
		if !strings.Contains(text, m.c.message(0)) {
			return
		}
		m.told[0]++
		ready := 0
		for i := range m.ended {
			ok := true
			for _, d := range m.c.Deps[i] {
				ok = ok && d < len(m.ended) && m.ended[d] == 1
			}
			ready += b2i(ok)
		}
		switch {
		case level != "":
			m.x.Violate("C31", "the message of tasks is shown as %s", level)
		case m.told[0] > ready:
			m.x.Violate("C31", "the message of all tasks is shown %d times when %d tasks are ready", m.told[0], ready)
		case m.sfailed:
			m.x.Violate("C31", "a message is shown although a target failed to start")
		case m.ret:
			m.x.Violate("C31", "a message is shown after the run had returned")
		}
		return
	}
	for i := range m.told {
		if t := m.c.message(i); t == "" || !strings.Contains(text, t) {
			continue
		}
		nm := m.c.name(i)
		m.told[i]++
		switch {
		case level != "":
			m.x.Violate("C31", "the message of task %q is shown as %s", nm, level)
		case m.told[i] > 1:
			m.x.Violate("C31", "the message of task %q is shown more than once", nm)
		case m.started[i] > 0:
			m.x.Violate("C31", "the message of task %q is shown after the task has started", nm)
		case m.sfailed:
			m.x.Violate("C31", "the message of task %q is shown although a target failed to start", nm)
		case m.ret:
			m.x.Violate("C31", "the message of task %q is shown after the run had returned", nm)
		case m.running[m.c.Target[i]] >= m.c.Limits[m.c.Target[i]]:
			m.x.Violate("C31", "the message of task %q is shown while its target is busy", nm)
		}
		for _, d := range m.c.Deps[i] {
			if d >= len(m.ended) || m.ended[d] != 1 {
				m.x.Violate("C31", "the message of task %q is shown before %q had finished successfully", nm, m.c.name(d))
			}
		}
	}
}

func (l *tasklog) Enabled(level zapcore.Level) bool  { return level > zapcore.DebugLevel }
func (l *tasklog) With([]zapcore.Field) zapcore.Core { return l }
func (l *tasklog) Sync() error                       { return nil }
func (l *tasklog) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if l.Enabled(e.Level) {
		return ce.AddCore(e, l)
	}
	return ce
}

func (l *tasklog) Write(e zapcore.Entry, fields []zapcore.Field) error {
	text := e.Message
	for _, f := range fields {
		o := zapcore.NewMapObjectEncoder()
		f.AddTo(o)
		text += fmt.Sprint("\t", o.Fields)
	}
	level := ""
	if e.Level != zapcore.InfoLevel {
		level = e.Level.String()
	}
	l.shown(level, text)
	return nil
}

// ---------------------------------------------------------------- driver

type result struct {
	Idx        int
	Cfg        string
	R          *mc.Result
	WallMS     int64
	Incomplete bool
	S          schedResult

	Stepwise bool
	Replayed int // of five replays of the violation, those that show it
	Trace    []mc.Step
}

// blocks of scheduler-level configurations handled as one item
const block = 500

// stepwise: this is the build with a scheduling point at every statement
var stepwise bool

func explore(c cfg, tag string, stop func() bool, replay []int, trace bool) *mc.Result {
	if stepwise {
		opt := mc.Options{Preempt: c.Preempt, MapDevs: 0, MapRev: c.MapRev, WantTags: map[string]bool{tag: true}, MaxSteps: 100000,
			Stop: stop, Replay: replay, Trace: trace}
		return mc.Explore(opt, body(c))
	}
	if c.Policy > 0 {
		opt := mc.Options{Preempt: -1, MapRev: c.MapRev, WantTags: map[string]bool{tag: true}, MaxSteps: 4000 + 400*len(c.Target), Stop: stop, Trace: trace, Policy: c.Policy}
		return mc.Explore(opt, body(c))
	}
	opt := mc.Options{Preempt: -1, MapDevs: c.MapDevs, MapRev: c.MapRev, WantTags: map[string]bool{tag: true},
		Stop: stop, Replay: replay, Trace: trace, MaxExecs: 3000000}
	return mc.Explore(opt, body(c))
}

func main() {
	prop := flag.String("prop", "C01", "property")
	worker := flag.Bool("worker", false, "worker process")
	replay := flag.String("replay", "", "replay file")
	flag.BoolVar(&stepwise, "stepwise", false, "this is the stepwise build")
	list := flag.Bool("list", false, "list configurations with their cost")
	flag.Parse()
	stop := ev.Budget(200*time.Second, 3000*time.Second)
	if *replay != "" {
		doReplay(*replay)
		return
	}
	cs := configs(*prop, ev.Thorough())
	steps := stepConfigs(*prop, ev.Thorough())
	var scs []cfg
	if stepwise {
		cs = steps
	} else if *prop == "C01" || *prop == "C04" || *prop == "C06" || *prop == "C02" {
		scs = schedConfigs(ev.Thorough())
	}
	nblocks := (len(scs) + block - 1) / block
	if *worker {
		pool.Worker(func(i int) any {
			if i >= len(cs) {
				var sum schedResult
				b := (i - len(cs)) * block
				for j := b; j < b+block && j < len(scs); j++ {
					if stop() {
						return result{Idx: i, S: sum, Incomplete: true}
					}
					r := schedule(scs[j], *prop)
					sum.States += r.States
					sum.Steps += r.Steps
					if r.Tag != "" {
						r.States, r.Steps = sum.States, sum.Steps
						r.Msg += fmt.Sprintf("\nafter the completions %q\nrunbook: %s", r.Hist, scs[j])
						return result{Idx: i, S: r, Cfg: scs[j].String()}
					}
				}
				return result{Idx: i, S: sum}
			}
			if stop() {
				return result{Idx: i, Incomplete: true}
			}
			t := time.Now()
			r := explore(cs[i], *prop, stop, nil, false)
			var trace []mc.Step
			n := 0
			for _, v := range r.Violations {
				for k := 0; k < 5; k++ {
					if last := explore(cs[i], *prop, nil, v.Decisions, true); len(last.Violations) > 0 {
						n++
						trace = last.Violations[0].Trace
					}
				}
				break
			}
			return result{Stepwise: stepwise, Replayed: n, Trace: trace, Idx: i, R: r, Incomplete: !r.Complete && len(r.Violations) == 0, WallMS: time.Since(t).Milliseconds()}
		})
		return
	}
	var rs []result
	nviol := 0
	handle := func(i int, m json.RawMessage) bool {
		var r result
		if err := json.Unmarshal(m, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		rs = append(rs, r)
		if r.R != nil {
			nviol += len(r.R.Violations)
		}
		if r.S.Tag != "" {
			nviol++
		}
		return nviol < 5
	}
	lost := pool.Run(len(cs)+nblocks, nil, []string{"-prop", *prop, "-worker"}, handle)
	if b := os.Getenv("VERIF_STEPWISE"); b != "" && len(lost) == 0 && nviol < 5 {
		pool.Binary = b
		lost = pool.Run(len(steps), nil, []string{"-prop", *prop, "-worker", "-stepwise"}, handle)
	}
	sort.Slice(rs, func(i, j int) bool {
		if rs[i].Stepwise != rs[j].Stepwise {
			return rs[j].Stepwise
		}
		return rs[i].Idx < rs[j].Idx
	})
	rep := ev.New(*prop, "model_checking")
	for _, i := range lost {
		// not even the explorer survives what the code does (exit, stack overflow, out of memory)
		rep.Addf(fmt.Sprint("lost item ", i), "the process dies in item %d", i)
	}
	var st, tr, ex, pr, done, inc, depth int
	outcomes := 0
	var sst, sstep int
	var samples []any
	of := func(r result) cfg {
		if r.Stepwise {
			return steps[r.Idx]
		}
		return cs[r.Idx]
	}
	var swCfgs, swStates, swExecs int
	for _, r := range rs {
		sst += r.S.States
		sstep += r.S.Steps
		if r.S.Tag != "" {
			rep.Add("scheduler "+r.Cfg, "scheduler: "+r.S.Msg, map[string]any{"runbook": r.Cfg, "completions": r.S.Hist})
		}
		if r.R == nil {
			if r.Incomplete {
				inc++
			}
			continue
		}
		if r.Incomplete {
			inc++
		} else {
			done++
		}
		st += r.R.States
		tr += r.R.Transitions
		ex += r.R.Execs
		pr += r.R.Pruned
		outcomes += len(r.R.Outcomes)
		if r.R.MaxDepth > depth {
			depth = r.R.MaxDepth
		}
		if *list {
			fmt.Printf("%6dms %8d states %8d execs %s\n", r.WallMS, r.R.States, r.R.Execs, of(r))
		}
		if r.Stepwise {
			swCfgs++
			swStates += r.R.States
			swExecs += r.R.Execs
		}
		if len(samples) < 3 && r.Idx%97 == 5 {
			samples = append(samples, map[string]any{"runbook": of(r).String(), "states": r.R.States, "executions": r.R.Execs, "outcomes": r.R.Outcomes})
		}
		for _, v := range r.R.Violations {
			c := of(r)
			if r.Replayed < 5 {
				// the code depends on something that is not under control (a clock, a random number)
				v.Msg += fmt.Sprintf("\n(seen again in %d of 5 replays)", r.Replayed)
			}
			sig := c.String()
			if r.Stepwise {
				sig = "stepwise " + sig
			}
			rep.Add(sig, v.Msg+"\nrunbook: "+c.String(), map[string]any{
				"cfg": c, "decisions": v.Decisions, "trace": r.Trace, "stepwise": r.Stepwise,
				"replay_with": "/verif/check replay FILE"})
			break
		}
	}
	if len(samples) == 0 && len(cs) > 0 {
		samples = append(samples, cs[0].String())
	}
	rep.Coverage["states"] = st + sst
	rep.Coverage["transitions"] = tr + sstep
	rep.Coverage["run_states"] = st
	rep.Coverage["scheduler_histories"] = sst
	rep.Coverage["scheduler_runbooks"] = len(scs)
	rep.Coverage["traces_validated_against_impl"] = ex + sst
	rep.Coverage["executions"] = ex
	rep.Coverage["merged_prefixes"] = pr
	rep.Coverage["runbooks"] = done
	rep.Coverage["runbooks_not_completed"] = inc
	rep.Coverage["distinct_outcomes_summed"] = outcomes
	rep.Coverage["longest_execution_ops"] = depth
	rep.Coverage["stepwise_runbooks"] = swCfgs
	rep.Coverage["stepwise_states"] = swStates
	rep.Coverage["stepwise_executions"] = swExecs
	rep.Coverage["exhaustive"] = inc == 0
	rep.Coverage["bound"] = boundText(*prop, ev.Thorough())
	rep.Coverage["samples"] = samples
	rep.Assumptions = []string{
		"the real runner, scheduler and dag packages run; only their channel operations, go statements, locks and map iterations are redirected to the controlled scheduler",
		"without a preemption bound, the accesses to memory between two synchronisation operations are one step; the stepwise runs, up to the preemptions they say, interleave every statement and every store",
		"every execution is an execution of the implementation, so traces_validated_against_impl is the number of executions plus scheduler histories",
	}
	rep.Finish()
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v struct {
		Property string
		Replay   struct {
			Cfg       cfg
			Decisions []int
			Stepwise  bool
		}
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if b := os.Getenv("VERIF_STEPWISE"); v.Replay.Stepwise && !stepwise && b != "" {
		cmd := exec.Command(b, append([]string{"-stepwise"}, os.Args[1:]...)...)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			os.Exit(cmd.ProcessState.ExitCode())
		}
		os.Exit(0)
	}
	if v.Replay.Decisions == nil {
		v.Replay.Decisions = []int{}
	}
	r := explore(v.Replay.Cfg, v.Property, nil, v.Replay.Decisions, true)
	fmt.Println("runbook:", v.Replay.Cfg)
	for _, f := range r.Violations {
		for i, s := range f.Trace {
			fmt.Printf("%4d %-14s %s\n", i, s.Thread, s.What)
		}
		fmt.Println(f.Tag, f.Msg)
	}
	if len(r.Violations) > 0 {
		os.Exit(1)
	}
}
