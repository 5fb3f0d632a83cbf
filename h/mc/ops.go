//go:build go1.21

package mc

import (
	"fmt"
	"runtime"
	"sort"
)

func (e *Exec) generic(label string, enabled func() bool, run func(t *thread)) {
	e.yield(&op{kind: opGeneric, label: label, enabled: enabled, run: run})
}

// Go replaces the go statement.
func Go(f func()) {
	e := cur
	if e == nil {
		go f()
		return
	}
	if e.abort {
		runtime.Goexit()
	}
	p := e.cur
	p.nspawn++
	id := mix(mix(p.ident, p.nspawn), 41)
	t := e.newThread(fmt.Sprintf("%s/g%d", p.name, p.nspawn), id)
	t.hash = mix(mix(id, p.hash), 43)
	p.hash = mix(p.hash, 47)
	t.op = &op{kind: opResume}
	e.launch(t, f, false)
	e.trace1(p, "go "+t.name)
}

// IdleTicks counts loop iterations outside an execution.
var IdleTicks int

// Tick is called in every loop body.
func Tick() {
	e := cur
	if e == nil {
		if IdleTicks++; IdleTicks > 200000000 {
			IdleTicks = 0
			panic("loops for ever")
		}
		return
	}
	if e.abort {
		runtime.Goexit()
	}
	t := e.cur
	t.loops++
	if t.loops > e.opt.MaxLoops {
		e.Violate(e.DeadTag, "%s loops for ever", t.name)
		e.over = true
		e.finish()
		<-t.sem
		runtime.Goexit()
	}
}

// Choose returns an environment answer in [0,n).
func Choose(n int, label string) int {
	e := cur
	if e.abort {
		return 0
	}
	i, _ := e.decide(n)
	e.cur.hash = mix(e.cur.hash, uint64(i)+31)
	e.trace1(e.cur, fmt.Sprintf("choose %s=%d", label, i))
	return i
}

// Event is an always-enabled visible operation on the monitor.
func Event(label string, f func()) {
	e := cur
	e.yield(&op{kind: opEvent, label: label, run: func(t *thread) {
		t.hash = mix(t.hash, 53)
		f()
	}})
}

// Yield is a scheduling point without an effect. With state merging on, the
// accesses between yields must be ordered by other means.
func Yield() {
	e := cur
	if e == nil {
		return
	}
	e.yield(&op{kind: opGeneric, label: "yield", run: func(t *thread) { t.hash = mix(t.hash, 59) }})
}

// Late is a scheduling point between the evaluation of v and its use.
func Late[T any](v T) T {
	Yield()
	return v
}

// Store is a store of v to *p that takes a while.
func Store[T any](p *T, v T) T {
	e := cur
	if e == nil {
		return v
	}
	Yield()
	if e.writing == nil {
		e.writing = map[any]*thread{}
	}
	e.raced(p)
	e.writing[p] = e.cur
	t := e.cur
	defer func() {
		if e.writing[p] == t {
			delete(e.writing, p)
		}
	}()
	Yield()
	e.locate(p, true)
	return v
}

// Load is an access to *p.
func Load[T any](p *T) *T {
	if e := cur; e != nil && !e.abort {
		e.raced(p)
		e.locate(p, false)
	}
	return p
}

// LoadRef is an access to *p, through which other memory may be changed.
func LoadRef[T any](p *T) *T {
	if e := cur; e != nil && !e.abort {
		e.raced(p)
		e.locate(p, true)
	}
	return p
}

// locate makes an access to the variable at p part of the histories, so that
// states are merged only if these accesses happened in the same order.
func (e *Exec) locate(p any, write bool) {
	if e.abort {
		return
	}
	if e.locs == nil {
		e.locs = map[any]uint64{}
	}
	h := mix(mix(e.cur.hash, e.locs[p]), 83)
	e.cur.hash = h
	if write {
		e.locs[p] = h
	}
}

func (e *Exec) raced(p any) {
	if t := e.writing[p]; t != nil && t != e.cur {
		e.Violate(e.DeadTag, "data race: %s uses a variable that %s is storing to", e.cur.name, t.name)
	}
}

// Leaf marks the current thread as part of the harness (never a leak).
func Leaf() { cur.cur.leakOK = true }

// ---------------------------------------------------------------- select

// Case is one communication of a select.
type Case struct{ sc selCase }

// RecvCase is case <-c.
func (c *Chan[T]) RecvCase() Case { return Case{selCase{c: c.c()}} }

// SendCase is case c <- v.
func (c *Chan[T]) SendCase(v T) Case { return Case{selCase{c: c.c(), send: true, val: v}} }

// Sel is the outcome of a select.
type Sel struct {
	Index int
	o     *op
}

// Select replaces select; Index is len(cases) for the default.
func Select(def bool, cases ...Case) *Sel {
	o := &op{kind: opSelect, def: def}
	for _, c := range cases {
		o.cases = append(o.cases, c.sc)
	}
	cur.yield(o)
	return &Sel{Index: o.ridx, o: o}
}

// Got returns the value received by the chosen case of a select.
func (c *Chan[T]) Got(s *Sel) T {
	v, _ := c.Got2(s)
	return v
}

// Got2 is Got with the ok flag.
func (c *Chan[T]) Got2(s *Sel) (T, bool) {
	var zero T
	if !s.o.rok {
		return zero, false
	}
	v, _ := s.o.rval.(T)
	return v, true
}

// BlockForever replaces select{}.
func BlockForever() {
	cur.yield(&op{kind: opGeneric, label: "select{}", enabled: func() bool { return false }})
}

// ChanIter iterates over a channel.
type ChanIter[T any] struct{ c *Chan[T] }

// RangeChan starts ranging over c.
func RangeChan[T any](c *Chan[T]) (*ChanIter[T], T) {
	var zero T
	return &ChanIter[T]{c}, zero
}

// Next receives the next value.
func (it *ChanIter[T]) Next(p *T) bool {
	v, ok := it.c.Recv2()
	if ok && p != nil {
		*p = v
	}
	return ok
}

// ---------------------------------------------------------------- maps

// MapIter iterates over a map in an order the explorer decides.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// RangeMap starts ranging over m.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	it := &MapIter[K, V]{m: m}
	for x := range m {
		it.keys = append(it.keys, x)
	}
	rev := MapReverse
	if cur != nil {
		rev = cur.opt.MapRev
	}
	sort.Slice(it.keys, func(i, j int) bool {
		if rev {
			i, j = j, i
		}
		return lessAny(it.keys[i], it.keys[j])
	})
	return it, k, v
}

func lessAny(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}

// MapReverse reverses the default order outside an execution.
var MapReverse bool

// MapOrder, if set, picks the next of n remaining keys outside an execution.
var MapOrder func(n int) int

// Next moves to the next key.
func (it *MapIter[K, V]) Next(pk *K, pv *V) bool {
	for len(it.keys) > 0 {
		i := 0
		e := cur
		switch {
		case len(it.keys) > 1 && e != nil && !e.abort && e.opt.MapDevs != 0 &&
			(e.opt.MapDevs < 0 || e.mapDevs < e.opt.MapDevs):
			i, _ = e.decide(len(it.keys))
			if i > 0 {
				e.mapDevs++
			}
			e.cur.hash = mix(e.cur.hash, uint64(i)+61)
			e.trace1(e.cur, fmt.Sprintf("map order %d/%d", i, len(it.keys)))
		case len(it.keys) > 1 && e == nil && MapOrder != nil:
			i = MapOrder(len(it.keys))
		}
		k := it.keys[i]
		it.keys = append(append([]K(nil), it.keys[:i]...), it.keys[i+1:]...)
		v, ok := it.m[k]
		if !ok {
			continue // deleted meanwhile
		}
		if pk != nil {
			*pk = k
		}
		if pv != nil {
			*pv = v
		}
		return true
	}
	return false
}

// Keys collects the remaining keys (maps.Keys).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	it, k, _ := RangeMap(m)
	var out []K
	for it.Next(&k, nil) {
		out = append(out, k)
	}
	return out
}

// Ch is the identity; it gives a value of a named channel type its methods.
func Ch[T any](c *Chan[T]) *Chan[T] { return c }

// NewNamed makes a channel of a named type.
func NewNamed[T any](_ *Chan[T], n int) *Chan[T] { return NewChan[T](n) }
