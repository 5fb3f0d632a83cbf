//go:build go1.21

package mc

import (
	"context"
	"time"
)

// Sleep replaces time.Sleep: a pause of any length.
func Sleep(d time.Duration) {
	if cur == nil {
		return
	}
	cur.generic("sleep", nil, func(t *thread) { t.hash = mix(t.hash, 113) })
}

// After replaces time.After: it may fire at any time.
func After(d time.Duration) *Chan[time.Time] {
	return NewTimer(d).C
}

// Timer replaces time.Timer.
type Timer struct {
	C       *Chan[time.Time]
	stopped bool
	fired   bool
	o       Obj
}

func startTimer(fire func(), t *Timer) {
	Go(func() {
		Leaf()
		ok := false
		t.o.Atomic("timer fires", func() {
			if !t.stopped {
				t.fired, ok = true, true
			}
		})
		if ok {
			fire()
		}
	})
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: NewChan[time.Time](1)}
	startTimer(func() { Select(true, t.C.SendCase(time.Time{})) }, t)
	return t
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	startTimer(f, t)
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() (was bool) {
	t.o.Atomic("timer stop", func() {
		was = !t.fired && !t.stopped
		t.stopped = true
	})
	return
}

// Reset restarts the timer.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.stopped, t.fired = false, false
	startTimer(func() { Select(true, t.C.SendCase(time.Time{})) }, t)
	return was
}

// Ticker replaces time.Ticker; at most three ticks are explored.
type Ticker struct {
	C       *Chan[time.Time]
	stopped bool
	o       Obj
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	t := &Ticker{C: NewChan[time.Time](1)}
	Go(func() {
		Leaf()
		for i := 0; i < 3; i++ {
			stop := false
			t.o.Atomic("tick", func() { stop = t.stopped })
			if stop {
				return
			}
			Select(true, t.C.SendCase(time.Time{}))
		}
	})
	return t
}

// Tick_ replaces time.Tick.
func Tick_(d time.Duration) *Chan[time.Time] { return NewTicker(d).C }

// Stop stops the ticker.
func (t *Ticker) Stop() { t.o.Atomic("ticker stop", func() { t.stopped = true }) }

// Reset is accepted.
func (t *Ticker) Reset(d time.Duration) {}

// ---------------------------------------------------------------- context

type mcKey struct{}

type mctx struct {
	context.Context
	done  *Chan[struct{}]
	o     Obj
	err   error
	kids  []*mctx
	cause error
}

func (c *mctx) Value(k any) any {
	if _, ok := k.(mcKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *mctx) Done() <-chan struct{} {
	panic("mc: Done called from code that is not instrumented")
}

func (c *mctx) Err() (err error) {
	c.o.Atomic("ctx.Err", func() { err = c.err })
	return
}

func (c *mctx) cancel(err error) {
	first := false
	c.o.Atomic("ctx cancel", func() {
		if c.err == nil {
			c.err, first = err, true
		}
	})
	if first {
		c.done.Close()
		for _, k := range c.kids {
			k.cancel(err)
		}
	}
}

// CtxDone replaces ctx.Done().
func CtxDone(ctx context.Context) *Chan[struct{}] {
	if c, ok := ctx.Value(mcKey{}).(*mctx); ok {
		return c.done
	}
	return nil
}

// WithCancel replaces context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &mctx{Context: parent, done: NewChan[struct{}](0)}
	if p, ok := parent.Value(mcKey{}).(*mctx); ok {
		p.kids = append(p.kids, c)
	}
	return c, func() { c.cancel(context.Canceled) }
}

// WithTimeout replaces context.WithTimeout: it may expire at any time.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	ctx, cancel := WithCancel(parent)
	AfterFunc(d, func() { ctx.(*mctx).cancel(context.DeadlineExceeded) })
	return ctx, cancel
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, 0)
}
