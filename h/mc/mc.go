//go:build go1.21

// Package mc is a controlled scheduler and stateless explorer for Go code
// whose goroutines, channels, locks and map iterations have been rewritten
// (by /verif/h/instr) to go through it. Exactly one managed thread runs at a
// time; every visible operation is a scheduling point.
//
// A state is identified by the happens-before history of every thread (the
// sequence of its own operations, each with the histories of the operations
// it synchronised with) plus the monitor's state, so two prefixes are merged
// only if they are the same partial order of operations.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

// ---------------------------------------------------------------- hashing

func mix(a, b uint64) uint64 {
	x := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// Mix combines two hashes.
func Mix(a, b uint64) uint64 { return mix(a, b) }

// HashString hashes a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- threads

type opKind int

const (
	opNone opKind = iota
	opResume
	opSend
	opRecv
	opSelect
	opGeneric
	opChoice
	opEvent
)

var kindNames = map[opKind]string{opNone: "-", opResume: "resume", opSend: "send", opRecv: "recv",
	opSelect: "select", opGeneric: "op", opChoice: "choice", opEvent: "event"}

type selCase struct {
	c    *chanCore
	send bool
	val  any
}

type op struct {
	kind  opKind
	label string
	c     *chanCore // send, recv
	val   any
	cases []selCase
	def   bool
	// generic: enabled reports whether it can run, run executes it
	enabled func() bool
	run     func(t *thread)
	// results
	rval  any
	rok   bool
	ridx  int
	panic any
	n     int // choice width
	free  bool
}

type thread struct {
	id     int
	name   string
	ident  uint64 // stable identity
	hash   uint64
	nobj   uint64
	nspawn uint64
	sem    chan struct{}
	op     *op
	done   bool
	leakOK bool
	loops  int
	since  int // when it announced its operation
}

// Violation is a property violation found by a monitor or by the explorer.
type Violation struct {
	Tag string
	Msg string
}

// Step is one executed transition, for traces.
type Step struct {
	Thread string
	What   string
}

// Options bounds one exploration.
type Options struct {
	MaxSteps  int  // visible operations per execution
	MaxLoops  int  // loop iterations without a visible operation
	MaxExecs  int  // 0: unlimited
	Preempt   int  // <0: unlimited
	MapDevs   int  // map iteration deviations from sorted order; <0 unlimited
	MapRev    bool // default map order is descending
	NoCache   bool // disable state merging
	KeepGoing bool // do not stop at the first violation
	WantTags  map[string]bool
	Stop      func() bool
	Replay    []int // replay exactly this decision list
	Trace     bool
	Policy    int // > 0: one execution, under the fixed scheduler with this number
}

// Policies is the number of fixed schedulers: go on with the same thread;
// change it; take turns; tasks take long; the newest thread first; the oldest
// thread first; the oldest operation first.
const Policies = 7

// policy picks a transition, the current thread's are in front.
func (e *Exec) policy(ts []trans) int {
	best := func(better func(a, b trans) bool) int {
		k := 0
		for i := range ts {
			if better(ts[i], ts[k]) {
				k = i
			}
		}
		return k
	}
	switch e.opt.Policy {
	case 2:
		return len(ts) - 1
	case 3:
		e.turn++
		return e.turn % len(ts)
	case 4:
		for i := range ts {
			if o := ts[i].t.op; o.kind != opEvent || !strings.HasPrefix(o.label, "task-end") {
				return i
			}
		}
		return len(ts) - 1
	case 5:
		return best(func(a, b trans) bool { return a.t.id > b.t.id })
	case 6:
		return best(func(a, b trans) bool { return a.t.id < b.t.id })
	case 7:
		return best(func(a, b trans) bool { return a.t.since < b.t.since })
	}
	return 0
}

// Result of an exploration.
type Result struct {
	Execs, States, Transitions, Pruned, Steps int
	Complete                                  bool
	Violations                                []Found
	Outcomes                                  map[string]int
	MaxDepth                                  int
	Diverged                                  int // executions that did not repeat their prefix
}

// Found is a violation with the decisions that lead to it.
type Found struct {
	Violation
	Decisions []int
	Trace     []Step
}

type node struct{ n, cur int }

// Exec is one execution under the scheduler.
type Exec struct {
	opt      *Options
	threads  []*thread
	cur      *thread
	finished chan struct{}
	abort    bool
	aborted  bool
	steps    int
	preempts int
	mapDevs  int
	turn     int

	ex        *explorer
	pos       int
	trace     []Step
	viol      []Violation
	mainDone  bool
	deadlock  bool
	over      bool
	prunedHit bool

	// harness hooks
	MonKey    func() uint64 // monitor state
	OnState   func(*Exec)   // called in every new state
	OnReturn  func()        // main body returned
	OnEnd     func()        // no transition left
	Outcome   func() string // observed outcome label
	DeadTag   string        // tag for deadlock, livelock, panic
	LeakTag   string        // tag for leftovers ("" = ignore)
	PanicIsOK func(v any) bool
	Data      any

	writing map[any]*thread // stores in progress
	locs    map[any]uint64  // history of variables
}

type explorer struct {
	opt   *Options
	stack []node
	cache map[uint64]struct{}
	res   *Result
}

var cur *Exec // the running execution

// Current returns the running execution.
func Current() *Exec { return cur }

// Active reports whether a controlled execution is running.
func Active() bool { return cur != nil }

// Violate records a violation.
func (e *Exec) Violate(tag, format string, args ...any) {
	if e.abort {
		return
	}
	e.viol = append(e.viol, Violation{tag, fmt.Sprintf(format, args...)})
}

// Explore runs body under every schedule within the bounds.
func Explore(opt Options, body func(*Exec)) *Result {
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 4000
	}
	if opt.MaxLoops == 0 {
		opt.MaxLoops = 2000000
	}
	ex := &explorer{opt: &opt, cache: map[uint64]struct{}{}, res: &Result{Outcomes: map[string]int{}}}
	if opt.Replay != nil {
		e := ex.run(body)
		ex.record(e)
		ex.res.Complete = true
		return ex.res
	}
	for {
		e := ex.run(body)
		ex.record(e)
		if opt.Policy > 0 {
			ex.res.Complete = true
			return ex.res
		}
		if len(ex.res.Violations) > 0 && !opt.KeepGoing || ex.res.Diverged > 200 {
			return ex.res
		}
		if e.pos < len(ex.stack) {
			ex.res.Diverged++
			ex.stack = ex.stack[:e.pos]
		}
		// backtrack
		for len(ex.stack) > 0 {
			top := &ex.stack[len(ex.stack)-1]
			if top.cur+1 < top.n {
				top.cur++
				break
			}
			ex.stack = ex.stack[:len(ex.stack)-1]
		}
		if len(ex.stack) == 0 {
			ex.res.Complete = true
			return ex.res
		}
		if opt.MaxExecs > 0 && ex.res.Execs >= opt.MaxExecs {
			return ex.res
		}
		if opt.Stop != nil && ex.res.Execs%64 == 0 && opt.Stop() {
			return ex.res
		}
	}
}

func (ex *explorer) record(e *Exec) {
	ex.res.Execs++
	ex.res.Steps += e.steps
	if e.steps > ex.res.MaxDepth {
		ex.res.MaxDepth = e.steps
	}
	if e.prunedHit {
		ex.res.Pruned++
	} else if e.Outcome != nil {
		ex.res.Outcomes[e.Outcome()]++
	}
	for _, v := range e.viol {
		if ex.opt.WantTags != nil && !ex.opt.WantTags[v.Tag] {
			continue
		}
		dec := make([]int, 0, len(ex.stack))
		for _, n := range ex.stack {
			dec = append(dec, n.cur)
		}
		if ex.opt.Replay != nil {
			dec = ex.opt.Replay
		}
		ex.res.Violations = append(ex.res.Violations, Found{v, dec, e.trace})
		if !ex.opt.KeepGoing {
			break
		}
	}
}

type abortPanic struct{}

func (ex *explorer) run(body func(*Exec)) *Exec {
	e := &Exec{opt: ex.opt, ex: ex, finished: make(chan struct{}, 1)}
	cur = e
	main := e.newThread("main", 1)
	main.op = &op{kind: opResume}
	e.launch(main, func() { body(e) }, true)
	e.dispatch(main)
	<-e.finished
	// unwind every thread that is still blocked
	e.abort = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if !t.done {
			e.cur = t
			t.sem <- struct{}{}
			<-e.finished
		}
	}
	cur = nil
	return e
}

func (e *Exec) newThread(name string, ident uint64) *thread {
	t := &thread{id: len(e.threads), name: name, ident: ident, hash: mix(ident, 77), sem: make(chan struct{}, 1)}
	e.threads = append(e.threads, t)
	return t
}

func (e *Exec) launch(t *thread, f func(), isMain bool) {
	go func() {
		<-t.sem
		normal := false
		defer func() {
			if !normal && !e.abort {
				// panic (a Goexit outside abort is treated as a normal end)
				if r := recover(); r != nil {
					if e.PanicIsOK == nil || !e.PanicIsOK(r) {
						e.trace1(t, fmt.Sprintf("PANIC %v", r))
						st := string(debug.Stack())
						e.Violate(e.DeadTag, "panic: %v\n%s", r, trimStack(st))
					}
					t.done = true
					e.over = true
					e.finish()
					return
				}
			} else if e.abort {
				recover()
			}
			t.done = true
			if e.abort {
				e.finished <- struct{}{}
				return
			}
			t.hash = mix(t.hash, 0xd0e)
			if isMain {
				e.mainDone = true
				if e.OnReturn != nil {
					e.OnReturn()
				}
			}
			e.schedule()
		}()
		if e.abort {
			return
		}
		f()
		normal = true
	}()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "pgutil") && !strings.Contains(l, "zzverif") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (e *Exec) finish() { e.finished <- struct{}{} }

func (e *Exec) trace1(t *thread, what string) {
	if e.opt.Trace {
		e.trace = append(e.trace, Step{t.name, what})
	}
}

// ---------------------------------------------------------------- scheduling

type trans struct {
	t    *thread
	alt  int     // select case, or -1
	peer *thread // unbuffered partner
	palt int
}

// yield announces the current thread's next operation and lets the scheduler
// decide; it returns when the operation has been executed.
func (e *Exec) yield(o *op) {
	t := e.cur
	if e.abort {
		runtime.Goexit()
	}
	t.loops = 0
	t.since = e.steps
	t.op = o
	e.schedule()
	<-t.sem
	if e.abort {
		runtime.Goexit()
	}
	if o.panic != nil {
		panic(o.panic)
	}
}

func (e *Exec) transitions() []trans {
	var ts []trans
	for _, t := range e.threads {
		if t.done || t.op == nil {
			continue
		}
		o := t.op
		switch o.kind {
		case opResume:
			// invisible: run it right away
			return append(ts[:0], trans{t: t, alt: -1})
		}
	}
	for _, t := range e.threads {
		if t.done || t.op == nil {
			continue
		}
		o := t.op
		switch o.kind {
		case opGeneric, opEvent:
			if o.enabled == nil || o.enabled() {
				ts = append(ts, trans{t: t, alt: -1})
			}
		case opSend:
			ts = e.sendTrans(ts, t, o.c, -1)
		case opRecv:
			ts = e.recvTrans(ts, t, o.c, -1)
		case opSelect:
			n := len(ts)
			hasRendezvous := false
			for i, sc := range o.cases {
				if sc.send {
					ts = e.sendTrans(ts, t, sc.c, i)
					if sc.c != nil && sc.c.cap == 0 && !sc.c.closed && e.hasReceiver(sc.c, t) {
						hasRendezvous = true
					}
				} else {
					ts = e.recvTrans(ts, t, sc.c, i)
				}
			}
			if o.def && len(ts) == n && !hasRendezvous {
				ts = append(ts, trans{t: t, alt: len(o.cases)})
			}
		}
	}
	return ts
}

func (e *Exec) hasReceiver(c *chanCore, not *thread) bool {
	for _, s := range e.threads {
		if s == not || s.done || s.op == nil {
			continue
		}
		if s.op.kind == opRecv && s.op.c == c {
			return true
		}
		if s.op.kind == opSelect {
			for _, sc := range s.op.cases {
				if !sc.send && sc.c == c {
					return true
				}
			}
		}
	}
	return false
}

func (e *Exec) sendTrans(ts []trans, t *thread, c *chanCore, alt int) []trans {
	if c == nil {
		return ts
	}
	if c.closed || len(c.buf) < c.cap {
		return append(ts, trans{t: t, alt: alt})
	}
	return ts // unbuffered: enumerated from the receiver
}

func (e *Exec) recvTrans(ts []trans, t *thread, c *chanCore, alt int) []trans {
	if c == nil {
		return ts
	}
	if len(c.buf) > 0 || c.closed {
		return append(ts, trans{t: t, alt: alt})
	}
	if c.cap == 0 {
		for _, s := range e.threads {
			if s == t || s.done || s.op == nil {
				continue
			}
			if s.op.kind == opSend && s.op.c == c {
				ts = append(ts, trans{t: t, alt: alt, peer: s, palt: -1})
			}
			if s.op.kind == opSelect {
				for i, sc := range s.op.cases {
					if sc.send && sc.c == c {
						ts = append(ts, trans{t: t, alt: alt, peer: s, palt: i})
					}
				}
			}
		}
	}
	return ts
}

// Enabled describes the operations that can run in the current state.
func (e *Exec) Enabled() []string {
	var out []string
	for _, tr := range e.transitions() {
		out = append(out, tr.t.op.label)
	}
	return out
}

// AllEnabledAre reports whether every operation that can run satisfies f
// (and there is at least one).
func (e *Exec) AllEnabledAre(f func(label string) bool) bool {
	ts := e.transitions()
	if len(ts) == 0 {
		return false
	}
	for _, tr := range ts {
		if !f(tr.t.op.label) {
			return false
		}
	}
	return true
}

func (e *Exec) key() uint64 {
	var k uint64
	for _, t := range e.threads {
		d := uint64(1)
		if t.done {
			d = 2
		}
		k += mix(mix(t.ident, t.hash), d)
	}
	if e.MonKey != nil {
		k = mix(k, e.MonKey())
	}
	if e.opt.MapDevs >= 0 {
		k = mix(k, uint64(e.mapDevs)+5)
	}
	if e.opt.Preempt >= 0 {
		k = mix(k, uint64(e.preempts)+9)
		if e.cur != nil {
			k = mix(k, e.cur.ident)
		}
	}
	return k
}

// decide picks one of n alternatives at the current decision point.
func (e *Exec) decide(n int) (int, bool) {
	if n == 1 || e.opt.Policy > 0 {
		return 0, true
	}
	ex := e.ex
	if ex.opt.Replay != nil {
		i := 0
		if e.pos < len(ex.opt.Replay) {
			i = ex.opt.Replay[e.pos]
		}
		e.pos++
		if i >= n {
			ex.res.Diverged++
			i = n - 1
		}
		return i, true
	}
	if e.pos < len(ex.stack) {
		nd := ex.stack[e.pos]
		if nd.n == n {
			e.pos++
			return nd.cur, true
		}
		// The code depends on something that is not under control (a clock,
		// a random number, what an earlier execution left behind): go on
		// from here as a new branch.
		ex.res.Diverged++
		ex.stack = ex.stack[:e.pos]
	}
	ex.stack = append(ex.stack, node{n, 0})
	e.pos++
	return 0, true
}

// schedule is called by a thread that has announced its next operation or
// has finished. It picks and executes the next transition and hands over.
func (e *Exec) schedule() {
	for {
		if e.over {
			e.finish()
			return
		}
		ts := e.transitions()
		if len(ts) == 0 {
			e.endOfRun()
			return
		}
		watch.Tick()
		resume := ts[0].t.op.kind == opResume
		if !resume {
			replaying := e.pos < len(e.ex.stack) || e.ex.opt.Replay != nil
			if !replaying && e.ex.opt.Replay == nil {
				var k uint64
				if e.opt.Policy == 0 {
					k = e.key()
				}
				if !e.ex.opt.NoCache && e.opt.Policy == 0 {
					if _, ok := e.ex.cache[k]; ok {
						// only prune where nothing has been decided here yet
						e.prunedHit = true
						e.over = true
						e.finish()
						return
					}
					e.ex.cache[k] = struct{}{}
				}
				e.ex.res.States++
			}
			if e.OnState != nil && (!replaying || e.ex.opt.Replay != nil) {
				e.OnState(e)
			}
			if len(e.viol) > 0 && !e.ex.opt.KeepGoing && e.wanted() {
				e.over = true
				e.finish()
				return
			}
			e.steps++
			if e.steps > e.opt.MaxSteps {
				e.Violate(e.DeadTag, "no end after %d operations (livelock)", e.opt.MaxSteps)
				e.over = true
				e.finish()
				return
			}
		}
		// order: keep running the current thread first (deviations last)
		if e.cur != nil && len(ts) > 1 {
			sort.SliceStable(ts, func(i, j int) bool { return ts[i].t == e.cur && ts[j].t != e.cur })
			if e.opt.Policy == 0 && e.opt.Preempt >= 0 && ts[0].t == e.cur && e.preempts >= e.opt.Preempt {
				n := 0
				for n < len(ts) && ts[n].t == e.cur {
					n++
				}
				ts = ts[:n]
			}
		}
		i := 0
		if !resume {
			var ok bool
			i, ok = e.decide(len(ts))
			if !ok {
				return
			}
			if e.opt.Policy > 0 {
				i = e.policy(ts)
			}
			e.ex.res.Transitions++
		}
		tr := ts[i]
		if !resume && e.cur != nil && ts[0].t == e.cur && tr.t != e.cur {
			e.preempts++
		}
		e.execute(tr)
		e.dispatch(tr.t)
		return
	}
}

func (e *Exec) wanted() bool {
	for _, v := range e.viol {
		if e.opt.WantTags == nil || e.opt.WantTags[v.Tag] {
			return true
		}
	}
	return false
}

func (e *Exec) dispatch(t *thread) {
	e.cur = t
	t.sem <- struct{}{}
}

func (e *Exec) endOfRun() {
	if !e.mainDone {
		if e.DeadTag != "" {
			e.Violate(e.DeadTag, "deadlock: %s", e.describeBlocked())
		}
	} else {
		if e.LeakTag != "" {
			for _, t := range e.threads {
				if !t.done && !t.leakOK {
					e.Violate(e.LeakTag, "left blocked for ever: %s", e.describeBlocked())
					break
				}
			}
		}
		if e.OnEnd != nil {
			e.OnEnd()
		}
	}
	e.over = true
	e.finish()
}

func (e *Exec) describeBlocked() string {
	var out []string
	for _, t := range e.threads {
		if t.done || t.op == nil {
			continue
		}
		out = append(out, fmt.Sprintf("%s blocked in %s", t.name, t.op.desc()))
	}
	return strings.Join(out, "; ")
}

func (o *op) desc() string {
	s := kindNames[o.kind]
	if o.c != nil {
		s += " " + o.c.name
	} else if o.kind == opSend || o.kind == opRecv {
		s += " nil channel"
	}
	for _, sc := range o.cases {
		d := "<-"
		if sc.send {
			d = "->"
		}
		if sc.c != nil {
			s += " " + d + sc.c.name
		}
	}
	if o.label != "" {
		s += " " + o.label
	}
	return s
}

// MainDone reports whether the main body has returned.
func (e *Exec) MainDone() bool { return e.mainDone }

// Unfinished names the threads that have not finished.
func (e *Exec) Unfinished() string { return e.describeBlocked() }

func (e *Exec) execute(tr trans) {
	t := tr.t
	o := t.op
	t.op = nil
	switch o.kind {
	case opResume:
	case opGeneric, opEvent:
		if o.run != nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						o.panic = r
					}
				}()
				o.run(t)
			}()
		}
		e.trace1(t, o.label)
	case opSend:
		e.doSend(t, o, o.c, o.val)
	case opRecv:
		e.doRecv(t, o, o.c, tr)
	case opSelect:
		o.ridx = tr.alt
		t.hash = mix(t.hash, uint64(tr.alt)+1000)
		if tr.alt == len(o.cases) {
			// default: it observed that no case was ready
			for _, sc := range o.cases {
				if sc.c != nil {
					t.hash = mix(t.hash, sc.c.sendHash)
					t.hash = mix(t.hash, sc.c.recvHash)
					h := t.hash
					sc.c.sendHash = mix(sc.c.sendHash, h)
					sc.c.recvHash = mix(sc.c.recvHash, h)
				}
			}
			e.trace1(t, "select default")
			return
		}
		sc := o.cases[tr.alt]
		if sc.send {
			e.doSend(t, o, sc.c, sc.val)
		} else {
			e.doRecv(t, o, sc.c, tr)
		}
	}
}

// ---------------------------------------------------------------- channels

type slot struct {
	val  any
	hash uint64
}

type chanCore struct {
	name     string
	cap      int
	buf      []slot
	closed   bool
	sendHash uint64
	recvHash uint64
	closeH   uint64
	nsent    int
	recvs    []uint64 // hash of the i-th receive
}

func (e *Exec) doSend(t *thread, o *op, c *chanCore, v any) {
	if c.closed {
		t.hash = mix(t.hash, c.closeH)
		o.panic = plainError("send on closed channel")
		e.trace1(t, "send on closed "+c.name)
		return
	}
	h := mix(mix(t.hash, c.sendHash), 11)
	if k := c.nsent - c.cap; k >= 0 && k < len(c.recvs) {
		h = mix(h, c.recvs[k])
	}
	c.nsent++
	c.sendHash = h
	t.hash = h
	c.buf = append(c.buf, slot{v, h})
	e.trace1(t, "send "+c.name)
}

func (e *Exec) doRecv(t *thread, o *op, c *chanCore, tr trans) {
	if tr.peer != nil {
		p := tr.peer
		po := p.op
		var v any
		if tr.palt >= 0 {
			v = po.cases[tr.palt].val
			po.ridx = tr.palt
			p.hash = mix(p.hash, uint64(tr.palt)+1000)
		} else {
			v = po.val
		}
		h := mix(mix(mix(p.hash, t.hash), mix(c.sendHash, c.recvHash)), 13)
		c.sendHash, c.recvHash = h, h
		c.nsent++
		t.hash = mix(h, 1)
		p.hash = mix(h, 2)
		o.rval, o.rok = v, true
		po.kind = opResume
		e.trace1(t, "recv "+c.name+" from "+p.name)
		return
	}
	if len(c.buf) > 0 {
		s := c.buf[0]
		c.buf = append([]slot(nil), c.buf[1:]...)
		h := mix(mix(mix(t.hash, c.recvHash), s.hash), 17)
		c.recvHash = h
		t.hash = h
		c.recvs = append(c.recvs, h)
		o.rval, o.rok = s.val, true
		e.trace1(t, "recv "+c.name)
		return
	}
	// closed and empty
	t.hash = mix(mix(t.hash, c.closeH), 19)
	t.hash = mix(t.hash, c.recvHash)
	o.rval, o.rok = nil, false
	e.trace1(t, "recv closed "+c.name)
}

type plainError string

func (p plainError) Error() string { return string(p) }

// RuntimeError makes it look like a runtime error.
func (p plainError) RuntimeError() {}

// Chan replaces chan T.
type Chan[T any] struct{ core *chanCore }

// NewChan replaces make(chan T, n).
func NewChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic(plainError("makechan: size out of range"))
	}
	c := &chanCore{cap: n}
	if e := cur; e != nil && e.cur != nil {
		t := e.cur
		t.nobj++
		c.name = fmt.Sprintf("%s.ch%d", t.name, t.nobj)
		c.sendHash = mix(mix(t.ident, t.nobj), 23)
		c.recvHash = mix(c.sendHash, 29)
	}
	return &Chan[T]{core: c}
}

func (c *Chan[T]) c() *chanCore {
	if c == nil {
		return nil
	}
	return c.core
}

// Send replaces c <- v.
func (c *Chan[T]) Send(v T) {
	e := cur
	if e == nil {
		panic("mc: Send outside an execution")
	}
	e.yield(&op{kind: opSend, c: c.c(), val: v})
}

// Recv replaces <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 replaces v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	o := &op{kind: opRecv, c: c.c()}
	cur.yield(o)
	var zero T
	if !o.rok {
		return zero, false
	}
	v, _ := o.rval.(T)
	return v, true
}

// Close replaces close(c).
func (c *Chan[T]) Close() {
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	k := c.core
	cur.generic("close "+k.name, nil, func(t *thread) {
		if k.closed {
			t.hash = mix(t.hash, k.closeH)
			panic(plainError("close of closed channel"))
		}
		k.closed = true
		h := mix(mix(t.hash, k.sendHash), 31)
		k.sendHash, k.closeH = h, h
		t.hash = h
	})
}

// Len replaces len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	n := 0
	k := c.core
	cur.generic("len "+k.name, nil, func(t *thread) {
		n = len(k.buf)
		h := mix(mix(t.hash, k.sendHash), k.recvHash)
		t.hash = h
		k.sendHash, k.recvHash = mix(h, 1), mix(h, 2)
	})
	return n
}

// Cap replaces cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.core.cap
}
