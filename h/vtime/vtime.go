//go:build go1.22

// Package vtime stands in for package time: sleeping takes no time, timers
// run fast, and pauses are recorded. Types are the real ones.
package vtime

import (
	"sync"
	"time"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	Timer      = time.Timer
	Ticker     = time.Ticker
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC             = time.UTC
	Local           = time.Local
	Date            = time.Date
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation
	Parse           = time.Parse
	ParseDuration   = time.ParseDuration
	ParseInLocation = time.ParseInLocation
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
)

var (
	mu      sync.Mutex
	ahead   time.Duration
	onPause func(time.Duration)
)

// OnPause sets what is called at every pause (nil: nothing).
func OnPause(f func(time.Duration)) {
	mu.Lock()
	onPause = f
	mu.Unlock()
}

func pause(d time.Duration) {
	mu.Lock()
	if d > 0 {
		ahead += d
	}
	f := onPause
	mu.Unlock()
	if f != nil {
		f(d)
	}
}

// fast is how long something of length d takes: long enough for the answer
// of a local server.
func fast(d time.Duration) time.Duration {
	if d > 0 {
		return d/50 + 1
	}
	return d
}

// Now is ahead of the real clock by what was slept.
func Now() Time {
	mu.Lock()
	defer mu.Unlock()
	return time.Now().Add(ahead)
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { pause(d) }
func After(d Duration) <-chan Time {
	pause(d)
	return time.After(fast(d))
}
func NewTimer(d Duration) *Timer {
	pause(d)
	return time.NewTimer(fast(d))
}
func AfterFunc(d Duration, f func()) *Timer { return time.AfterFunc(fast(d), f) }
func NewTicker(d Duration) *Ticker          { return time.NewTicker(fast(d)) }
func Tick(d Duration) <-chan Time           { return time.Tick(fast(d)) }
