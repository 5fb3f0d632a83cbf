//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

var severities = []string{"ERROR", "WARN", "INFO", "DEBUG"}

// A method logs message n; what it has to show, apart from its severity, are
// the parts.
type method struct {
	sev   int
	kind  string
	call  func(l sys.Logger, n int)
	parts func(n int) []string
}

func methods() (out []method) {
	type fns struct {
		p func(sys.Logger) func(...interface{})
		f func(sys.Logger) func(string, ...interface{})
		w func(sys.Logger) func(string, ...interface{})
	}
	all := []fns{
		{func(l sys.Logger) func(...interface{}) { return l.Error }, func(l sys.Logger) func(string, ...interface{}) { return l.Errorf }, func(l sys.Logger) func(string, ...interface{}) { return l.Errorw }},
		{func(l sys.Logger) func(...interface{}) { return l.Warn }, func(l sys.Logger) func(string, ...interface{}) { return l.Warnf }, func(l sys.Logger) func(string, ...interface{}) { return l.Warnw }},
		{func(l sys.Logger) func(...interface{}) { return l.Info }, func(l sys.Logger) func(string, ...interface{}) { return l.Infof }, func(l sys.Logger) func(string, ...interface{}) { return l.Infow }},
		{func(l sys.Logger) func(...interface{}) { return l.Debug }, func(l sys.Logger) func(string, ...interface{}) { return l.Debugf }, func(l sys.Logger) func(string, ...interface{}) { return l.Debugw }},
	}
	for i, m := range all {
		m := m
		out = append(out,
			method{i, "", func(l sys.Logger, n int) { m.p(l)("m", n, " 100%d ", n) }, func(n int) []string { return []string{fmt.Sprintf("m%d 100%%d %d", n, n)} }},
			method{i, "f", func(l sys.Logger, n int) { m.f(l)("m%d %s", n, "<é \"q\">") }, func(n int) []string { return []string{fmt.Sprintf("m%d <é \"q\">", n)} }},
			method{i, "w", func(l sys.Logger, n int) { m.w(l)(fmt.Sprintf("m%d %%s", n), "key", "the value", "n", n) }, func(n int) []string {
				return []string{fmt.Sprintf("m%d %%s", n), "key", "the value", fmt.Sprintf("%d", n)}
			}},
		)
	}
	return
}

type lostWriter struct{ short bool }

func (w lostWriter) Write(b []byte) (int, error) {
	if w.short {
		return len(b) / 2, io.ErrShortWrite
	}
	return 0, errors.New("no space left")
}

// A sink is one place to log to. read returns what arrived.
type sink struct {
	name string
	open func() (w io.Writer, read func() string, ok bool)
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func pty() (w io.Writer, read func() string, ok bool) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, false
	}
	var n uint32
	var zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		m.Close()
		return nil, nil, false
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, false
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, false
	}
	got := make(chan string, 1)
	go func() {
		var all bytes.Buffer
		b := make([]byte, 4096)
		for {
			k, err := m.Read(b)
			all.Write(b[:k])
			if err != nil || bytes.Contains(all.Bytes(), []byte("\x04end")) {
				break
			}
		}
		t := strings.ReplaceAll(all.String(), "\r\n", "\n")
		if i := strings.Index(t, "\x04end"); i >= 0 {
			t = t[:i]
		}
		got <- ansi.ReplaceAllString(t, "")
	}()
	return s, func() string {
		io.WriteString(s, "\x04end")
		defer m.Close()
		defer s.Close()
		select {
		case t := <-got:
			return t
		case <-time.After(10 * time.Second):
			return "harness: nothing arrives at the terminal"
		}
	}, true
}

func buffer() (io.Writer, func() string, bool) {
	b := &bytes.Buffer{}
	return b, func() string { return b.String() }, true
}

func file(name string) func() (io.Writer, func() string, bool) {
	return func() (io.Writer, func() string, bool) {
		p := filepath.Join(scratch(), name)
		f, err := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_TRUNC|os.O_WRONLY, 0o644)
		cases.Must(err)
		return f, func() string {
			f.Close()
			b, err := os.ReadFile(p)
			cases.Must(err)
			return string(b)
		}, true
	}
}

func lost(short bool) func() (io.Writer, func() string, bool) {
	return func() (io.Writer, func() string, bool) { return lostWriter{short}, nil, true }
}

var defaultSinks = []sink{{"buffer", buffer}, {"file", file("out.log")}, {"terminal", pty}, {"broken", lost(false)}, {"short", lost(true)}}
var debugSinks = []sink{{"none", nil}, {"buffer", buffer}, {"file", file("dbg.log")}, {"broken", lost(false)}}

// shown compares what a sink shows with the messages it should show.
func shown(text string, level int, ms []method, seq []int, own string) string {
	if text != "" && !strings.HasSuffix(text, "\n") {
		return fmt.Sprintf("its last line is not complete: %.300q", text)
	}
	lines := strings.Split(text, "\n")
	lines = lines[:len(lines)-1]
	if own != "" && len(lines) > 0 && strings.Contains(lines[0], own) {
		if level < 2 || !strings.Contains(lines[0], "INFO") {
			return fmt.Sprintf("it starts with %q", lines[0])
		}
		lines = lines[1:]
	}
	for n, x := range seq {
		m := ms[x]
		if m.sev > level {
			continue
		}
		if len(lines) == 0 {
			return fmt.Sprintf("message %d (%s%s) is not shown", n, severities[m.sev], m.kind)
		}
		if !strings.Contains(lines[0], severities[m.sev]) {
			return fmt.Sprintf("message %d (%s%s) is shown as %.300q", n, severities[m.sev], m.kind, lines[0])
		}
		for _, p := range m.parts(n) {
			if !strings.Contains(lines[0], p) {
				return fmt.Sprintf("message %d (%s%s) is shown as %.300q", n, severities[m.sev], m.kind, lines[0])
			}
		}
		lines = lines[1:]
	}
	if len(lines) > 0 {
		return fmt.Sprintf("there is more: %.300q", lines[0])
	}
	return ""
}

func levelOf(v int) int {
	switch {
	case v < 0:
		return 0
	case v > 3:
		return 3
	}
	return v
}

func logOnce(r *result, v int, ds, bs sink, ms []method, seq []int) {
	at := fmt.Sprintf("verbosity %d, log %s, debug log %s, %d messages", v, ds.name, bs.name, len(seq))
	for i, x := range seq {
		if i == 12 {
			at += " ..."
			break
		}
		at += " " + severities[ms[x].sev] + ms[x].kind
	}
	w, read, ok := ds.open()
	if !ok {
		r.Count("no_terminal", 1)
		return
	}
	var bw io.Writer
	var bread func() string
	own := ""
	if bs.open != nil {
		bw, bread, _ = bs.open()
		if f, ok := bw.(*os.File); ok {
			own = f.Name()
		}
	}
	var problem string
	guarded := func(f func()) { problem = cases.Guarded(f) }
	if read == nil || bs.name == "broken" {
		guarded = func(f func()) { silently(func() { problem = cases.Guarded(f) }) }
	}
	guarded(func() {
		l := logger.New(v, w, bw)
		for n, x := range seq {
			ms[x].call(l, n)
		}
	})
	r.State()
	r.Count("transitions", len(seq))
	if problem != "" {
		r.Add(at+": "+problem, "with %s, %s", at, problem)
		if read != nil {
			read()
		}
		if bread != nil {
			bread()
		}
		return
	}
	if read != nil {
		if m := shown(read(), levelOf(v), ms, seq, own); m != "" {
			r.Add(at+": log", "with %s, on the log: %s", at, m)
		}
	}
	if bread != nil {
		if m := shown(bread(), 3, ms, seq, own); m != "" {
			r.Add(at+": debug log", "with %s, on the debug log: %s", at, m)
		}
	}
}

func casesC27() (out []cases.Case) {
	ms := methods()
	depth := map[string]int{"buffer": 4, "file": 3, "terminal": 1, "broken": 3, "short": 3}
	if cases.Thorough {
		depth = map[string]int{"buffer": 5, "file": 4, "terminal": 2, "broken": 4, "short": 4}
	}
	for _, v := range []int{-1 << 63, -1 << 32, -129, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 127, 128, 129, 255, 256, 257, 258, 1 << 32, 1<<32 + 1, 1<<63 - 1} {
		for _, ds := range defaultSinks {
			for _, bs := range debugSinks {
				v, ds, bs := v, ds, bs
				d := depth[ds.name]
				if d > depth[bs.name] && bs.open != nil {
					d = depth[bs.name]
				}
				if d > 2 && (v < -1 || v > 4) {
					d = 2
				}
				out = append(out, cases.Case{Name: fmt.Sprintf("verbosity %d log %s debug log %s", v, ds.name, bs.name), Run: func(r *result) {
					var walk func(seq []int)
					walk = func(seq []int) {
						logOnce(r, v, ds, bs, ms, seq)
						if len(seq) == d || len(r.Viol) > 40 {
							return
						}
						for x := range ms {
							walk(append(append([]int{}, seq...), x))
						}
					}
					walk(nil)
				}})
			}
		}
	}
	return append(out, manyMessages()...)
}

// manyMessages are long sequences, with the same message again and again, and
// long messages.
func manyMessages() (out []cases.Case) {
	same := []method{}
	for i := range severities {
		at := func(l sys.Logger, f func(...interface{}), w func(string, ...interface{}), n int) {
			if n%2 == 0 {
				f("the same message")
			} else {
				w("the same message", "key", "value")
			}
		}
		same = append(same, method{i, " again", func(l sys.Logger, n int) {
			switch i {
			case 0:
				at(l, l.Error, l.Errorw, n)
			case 1:
				at(l, l.Warn, l.Warnw, n)
			case 2:
				at(l, l.Info, l.Infow, n)
			case 3:
				at(l, l.Debug, l.Debugw, n)
			}
		}, func(n int) []string { return []string{"the same message"} }})
	}
	lengths := []int{100, 255, 256, 257, 1000, 1024, 1025, 4096, 5000, 70000, 1 << 20}
	var long []method
	for _, n := range lengths {
		text := strings.Repeat("long", n/4)
		for i := range severities {
			long = append(long, method{i, fmt.Sprintf(" of %d", n), func(l sys.Logger, _ int) {
				switch i {
				case 0:
					l.Errorf("%s.", text)
				case 1:
					l.Warnw(text+".", "key", text+"!")
				case 2:
					l.Info(text, ".")
				case 3:
					l.Debugw("x", "key", text+".")
				}
			}, func(int) []string { return []string{text + "."} }})
		}
	}
	cycle := func(from, to, n int) (seq []int) {
		for i := 0; i < n; i++ {
			seq = append(seq, from+i%(to-from))
		}
		return
	}
	counts := []int{100, 101, 250, 1500}
	if cases.Thorough {
		counts = append(counts, 127, 128, 129, 255, 256, 257, 1001, 20000)
	}
	ms := methods()
	for v := -1; v <= 4; v++ {
		for _, ds := range defaultSinks {
			for _, bs := range debugSinks {
				out = append(out, cases.Case{Name: fmt.Sprintf("many messages, verbosity %d log %s debug log %s", v, ds.name, bs.name), Run: func(r *result) {
					for _, n := range counts {
						logOnce(r, v, ds, bs, ms, cycle(0, len(ms), n))
						for i := range severities {
							logOnce(r, v, ds, bs, same, cycle(i, i+1, n))
						}
						logOnce(r, v, ds, bs, same, cycle(0, 4, n))
					}
					if ds.name == "terminal" {
						return // it has its own way with long lines
					}
					logOnce(r, v, ds, bs, long, cycle(0, len(long), len(long)))
					for i := range long {
						logOnce(r, v, ds, bs, long, []int{i, i})
					}
				}})
			}
		}
	}
	return
}

// silently keeps the logger's own complaints away from the standard error.
func silently(f func()) {
	old := os.Stderr
	defer func() { os.Stderr = old }()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	cases.Must(err)
	defer null.Close()
	os.Stderr = null
	f()
}
