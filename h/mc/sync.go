//go:build go1.21

package mc

import "fmt"

// Obj is the happens-before history of a synchronisation object.
type Obj struct{ h uint64 }

func (o *Obj) touch(t *thread, k uint64) {
	h := mix(mix(t.hash, o.h), k)
	o.h = h
	t.hash = h
}

// Atomic runs f as one visible operation on o.
func (o *Obj) Atomic(label string, f func()) {
	if cur == nil || cur.abort && cur.cur == nil {
		f()
		return
	}
	cur.generic(label, nil, func(t *thread) {
		o.touch(t, 67)
		f()
	})
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	o    Obj
	held bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	if cur == nil {
		if m.held {
			panic("blocks for ever in Lock")
		}
		m.held = true
		return
	}
	cur.generic("lock", func() bool { return !m.held }, func(t *thread) {
		m.held = true
		m.o.touch(t, 71)
	})
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	ok := false
	cur.generic("trylock", nil, func(t *thread) {
		m.o.touch(t, 71)
		ok = !m.held
		m.held = true
	})
	return ok
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if cur == nil {
		m.held = false
		return
	}
	cur.generic("unlock", nil, func(t *thread) {
		m.o.touch(t, 73)
		if !m.held {
			panic(plainError("fatal error: sync: unlock of unlocked mutex"))
		}
		m.held = false
	})
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	o       Obj
	w       bool
	readers int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if cur == nil {
		return
	}
	cur.generic("wlock", func() bool { return !m.w && m.readers == 0 }, func(t *thread) {
		m.w = true
		m.o.touch(t, 71)
	})
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	if cur == nil {
		return
	}
	cur.generic("wunlock", nil, func(t *thread) {
		m.o.touch(t, 73)
		if !m.w {
			panic(plainError("fatal error: sync: Unlock of unlocked RWMutex"))
		}
		m.w = false
	})
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if cur == nil {
		return
	}
	cur.generic("rlock", func() bool { return !m.w }, func(t *thread) {
		m.readers++
		m.o.touch(t, 79)
	})
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	if cur == nil {
		return
	}
	cur.generic("runlock", nil, func(t *thread) {
		m.o.touch(t, 83)
		if m.readers == 0 {
			panic(plainError("fatal error: sync: RUnlock of unlocked RWMutex"))
		}
		m.readers--
	})
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n   int
	sum uint64
}

// Add adds n.
func (w *WaitGroup) Add(n int) {
	if cur == nil {
		w.n += n
		return
	}
	cur.generic(fmt.Sprintf("wg.Add(%d)", n), nil, func(t *thread) {
		w.n += n
		t.hash = mix(t.hash, 89)
		w.sum += mix(t.hash, uint64(n))
		if w.n < 0 {
			panic(plainError("sync: negative WaitGroup counter"))
		}
	})
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if cur == nil {
		return
	}
	cur.generic("wg.Wait", func() bool { return w.n == 0 }, func(t *thread) {
		t.hash = mix(mix(t.hash, w.sum), 97)
	})
}

// Go runs f in a goroutine (Go 1.25).
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	o    Obj
	wait []*bool
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	woken := new(bool)
	cur.generic("cond.Wait", nil, func(t *thread) {
		c.o.touch(t, 101)
		c.wait = append(c.wait, woken)
	})
	c.L.Unlock()
	cur.generic("cond.wake", func() bool { return *woken }, func(t *thread) { c.o.touch(t, 103) })
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	cur.generic("cond.Signal", nil, func(t *thread) {
		c.o.touch(t, 107)
		if len(c.wait) > 0 {
			*c.wait[0] = true
			c.wait = c.wait[1:]
		}
	})
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	cur.generic("cond.Broadcast", nil, func(t *thread) {
		c.o.touch(t, 109)
		for _, w := range c.wait {
			*w = true
		}
		c.wait = nil
	})
}

// Map replaces sync.Map.
type Map struct {
	o Obj
	m map[any]any
	k []any
}

// Load loads.
func (m *Map) Load(k any) (v any, ok bool) {
	m.o.Atomic("map.Load", func() { v, ok = m.m[k] })
	return
}

// Store stores.
func (m *Map) Store(k, v any) { m.o.Atomic("map.Store", func() { m.put(k, v) }) }

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(append([]any(nil), m.k[:i]...), m.k[i+1:]...)
			break
		}
	}
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (r any, loaded bool) {
	m.o.Atomic("map.LoadOrStore", func() {
		if r, loaded = m.m[k]; !loaded {
			m.put(k, v)
			r = v
		}
	})
	return
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.o.Atomic("map.LoadAndDelete", func() {
		v, ok = m.m[k]
		m.del(k)
	})
	return
}

// Delete deletes.
func (m *Map) Delete(k any) { m.o.Atomic("map.Delete", func() { m.del(k) }) }

// Range ranges.
func (m *Map) Range(f func(k, v any) bool) {
	var ks []any
	m.o.Atomic("map.Range", func() { ks = append(ks, m.k...) })
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool (a pool may always be empty).
type Pool struct{ New func() any }

// Get gets.
func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts.
func (p *Pool) Put(any) {}
