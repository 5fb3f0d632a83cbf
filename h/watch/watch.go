//go:build go1.22

// Package watch notices that the code under test does not go on: no sign of
// progress while the process has used a lot of processor time.
package watch

import (
	"sync/atomic"
	"syscall"
	"time"
)

var ticks atomic.Int64

// Tick is a sign of progress.
func Tick() { ticks.Add(1) }

const limit = 60 * time.Second // of processor time

func used() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Start calls stuck, once, if there is no progress. Progress is also a change
// of any of the counters.
func Start(stuck func(), counters ...*atomic.Int64) {
	go func() {
		sum := func() int64 {
			n := ticks.Load()
			for _, c := range counters {
				n += c.Load()
			}
			return n
		}
		last, since := sum(), used()
		for {
			time.Sleep(500 * time.Millisecond)
			if n := sum(); n != last {
				last, since = n, used()
			} else if used()-since > limit {
				stuck()
				return
			}
		}
	}()
}
