//go:build go1.22

package main

import (
	"fmt"
	"net"
	"os"
	"os/user"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
	"github.com/sjansen/pgutil/internal/zzverif/vtime"
)

// ---- C13: attempts

// What can happen to an attempt. All but the last fail.
var outcomes = []string{"refused", "closed at once", "closed at the start", "authentication rejected", "server starting up", "lost while connecting", "accepted"}

const accepted = 6

// A world is a server that lives in a socket directory and behaves
// differently after every pause of the client.
type world struct {
	dir, path string
	seq       []int
	after     int // outcome once seq is used up

	mu     sync.Mutex
	epoch  int
	pauses []time.Duration
	srv    *pgsrv.Server
	db     *cat
	past   []*pgsrv.Server
	conns  []int // outcome met by every connection
}

func (w *world) outcome() int {
	if w.epoch < len(w.seq) {
		return w.seq[w.epoch]
	}
	return w.after
}

func (w *world) plan(int) pgsrv.Plan {
	w.mu.Lock()
	defer w.mu.Unlock()
	o := w.outcome()
	w.conns = append(w.conns, o)
	p := pgsrv.Plan{DB: w.db}
	switch outcomes[o] {
	case "closed at once":
		p.Drop = "accept"
	case "closed at the start":
		p.Drop = "startup"
	case "authentication rejected":
		p.Reject = "28P01"
	case "server starting up":
		p.Reject = "57P03"
	case "lost while connecting":
		p.FaultAt, p.FaultKind = 9, "close"
	}
	return p
}

// enter makes the socket agree with the outcome.
func (w *world) enter() {
	up := outcomes[w.outcome()] != "refused"
	if up && w.srv == nil {
		l, err := net.Listen("unix", w.path)
		if err != nil {
			panic(err)
		}
		w.srv = pgsrv.Serve(l, w.plan)
		w.past = append(w.past, w.srv)
	}
	if !up && w.srv != nil {
		w.srv.Close() // removes the socket
		w.srv = nil
	}
}

func (w *world) pause(d time.Duration) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.pauses = append(w.pauses, d)
	w.epoch++
	w.enter()
}

func (w *world) logs() (out []*pgsrv.Log) {
	for _, s := range w.past {
		out = append(out, s.Logs()...)
	}
	return
}

var worlds int

func attempts(r *result, retries int, seq []int, after int) {
	worlds++
	dir := filepath.Join(tmp, fmt.Sprintf("w%d-%d", os.Getpid(), worlds))
	if err := os.Mkdir(dir, 0o700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := &world{dir: dir, path: filepath.Join(dir, ".s.PGSQL.5999"), seq: seq, after: after, db: newCat("public")}
	w.mu.Lock()
	w.enter()
	w.mu.Unlock()
	var names []string
	for _, o := range seq {
		names = append(names, outcomes[o])
	}
	at := fmt.Sprintf("retries=%d, attempts meet: %s, then: %s", retries, strings.Join(names, ", "), outcomes[after])
	vtime.OnPause(w.pause)
	defer vtime.OnPause(nil)
	var conn *pg.Conn
	var err error
	problem := guarded(func() {
		conn, err = pg.New(&pg.Options{Log: zap.NewNop().Sugar(), Host: dir, Port: 5999, SSLMode: "disable", Username: "u", Database: "d", ConnectRetries: retries})
	})
	r.count("states", 1)
	r.count("evaluations", 1)
	r.count("traces_validated_against_impl", 1)
	defer func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.srv != nil {
			w.srv.Close()
		}
	}()
	if problem != "" {
		r.add(at+": "+problem, "%s: %s", at, problem)
		return
	}
	w.mu.Lock()
	pauses := append([]time.Duration{}, w.pauses...)
	conns := append([]int{}, w.conns...)
	w.mu.Unlock()
	r.count("transitions", len(conns)+len(pauses))

	// expectation: attempts until the first success, one pause between two
	limit := retries + 1
	if limit < 1 {
		limit = 1
	}
	n, ok := limit, false
	full := append(append([]int{}, seq...), after)
	for i := 0; i < limit; i++ {
		o := full[len(full)-1]
		if i < len(full) {
			o = full[i]
		}
		if o == accepted {
			n, ok = i+1, true
			break
		}
	}
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		r.add(at+": "+m, "%s: %s (error: %v; pauses: %v)", at, m, err, pauses)
	}
	if len(pauses) != n-1 {
		bad("%d pauses instead of %d", len(pauses), n-1)
	}
	for i := range pauses {
		if pauses[i] <= 0 || i > 0 && pauses[i] <= pauses[i-1] {
			bad("the pauses do not grow: %v", pauses)
			break
		}
	}
	want := 0
	for i := 0; i < n; i++ {
		o := after
		if i < len(seq) {
			o = seq[i]
		}
		if outcomes[o] != "refused" {
			want++
		}
	}
	if len(conns) != want {
		bad("%d connections reach the server instead of %d", len(conns), want)
	}
	if ok != (err == nil) {
		bad("an attempt succeeded: %v, yet the error is %v", ok, err)
	}
	if err != nil && conn != nil {
		bad("both an error and a connection")
	}
	ls := w.logs()
	if err == nil {
		if conn == nil {
			bad("neither an error nor a connection")
			return
		}
		var verr error
		if p := guarded(func() { _, verr = conn.ServerVersion() }); p != "" || verr != nil {
			bad("the connection does not work: %v %s", verr, p)
		}
		open := 0
		for end := time.Now().Add(2 * time.Second); ; time.Sleep(200 * time.Microsecond) {
			open = 0
			for _, l := range ls {
				if !l.Closed(0) {
					open++
				}
			}
			if open <= 1 || time.Now().After(end) {
				break
			}
		}
		if open != 1 {
			bad("%d open connections instead of one", open)
		}
		guarded(func() { conn.Close() })
	}
	for _, l := range ls {
		if !l.Closed(5 * time.Second) {
			bad("a connection stays open")
			break
		}
	}
}

// ---- C13: where parameters come from

const (
	pHost = 1 << iota
	pPort
	pUser
	pPassword
	pDatabase
)

func precedence(r *result) {
	me, err := user.Current()
	if err != nil {
		r.Broken = err.Error()
		return
	}
	var mu sync.Mutex
	var password string
	plan := func(int) pgsrv.Plan {
		mu.Lock()
		defer mu.Unlock()
		return pgsrv.Plan{Auth: "cleartext", Password: password, DB: newCat("public")}
	}
	var srvs [3]*pgsrv.Server
	for i, addr := range []string{"", "", ":5432"} {
		var l net.Listener
		var err error
		if addr == "" {
			l, err = pgsrv.Listen("")
		} else {
			l, err = net.Listen("tcp", addr)
		}
		if err != nil {
			if i < 2 {
				r.Broken = err.Error()
				return
			}
			continue // the default port is taken: its cases are left out
		}
		srvs[i] = pgsrv.Serve(l, plan)
		defer srvs[i].Close()
	}
	portOf := func(i int) uint16 {
		if i == 2 {
			return 5432
		}
		return srvs[i].Port()
	}
	pick := func(bit, opt, env int, a, b, c string) string {
		switch {
		case opt&bit != 0:
			return a
		case env&bit != 0:
			return b
		}
		return c
	}
	vars := []string{"PGHOST", "PGPORT", "PGUSER", "PGPASSWORD", "PGDATABASE"}
	defer func() {
		for _, v := range vars {
			os.Unsetenv(v)
		}
	}()
	for opt := 0; opt < 32; opt++ {
		for env := 0; env < 32; env++ {
			pi := 2
			if opt&pPort != 0 {
				pi = 0
			} else if env&pPort != 0 {
				pi = 1
			}
			if srvs[pi] == nil {
				r.count("default_port_taken", 1)
				continue
			}
			evals := []string{"127.0.0.3", fmt.Sprint(portOf(1)), "envuser", "envsecret", "envdb"}
			for i, v := range vars {
				if env>>i&1 == 1 {
					os.Setenv(v, evals[i])
				} else {
					os.Unsetenv(v)
				}
			}
			o := &pg.Options{Log: zap.NewNop().Sugar(), SSLMode: "disable"}
			if opt&pHost != 0 {
				o.Host = "127.0.0.2"
			}
			if opt&pPort != 0 {
				o.Port = portOf(0)
			}
			if opt&pUser != 0 {
				o.Username = "optuser"
			}
			if opt&pPassword != 0 {
				o.Password = "optsecret"
			}
			if opt&pDatabase != 0 {
				o.Database = "optdb"
			}
			mu.Lock()
			password = pick(pPassword, opt, env, "optsecret", "envsecret", "")
			mu.Unlock()
			// whatever else runs on the machine may connect to the default port:
			// what is wrong has to be wrong a second time
			try := func() (problems []string) {
				var counts [3]int
				for i, s := range srvs {
					if s != nil {
						counts[i] = len(s.Logs())
					}
				}
				var conn *pg.Conn
				var err error
				problem := guarded(func() { conn, err = pg.New(o) })
				r.count("states", 1)
				r.count("evaluations", 1)
				r.count("traces_validated_against_impl", 1)
				bad := func(f string, a ...any) { problems = append(problems, fmt.Sprintf(f, a...)) }
				if problem != "" {
					bad("%s", problem)
					return
				}
				if err == nil {
					conn.Close()
				}
				var log *pgsrv.Log
				for i, s := range srvs {
					if s == nil {
						continue
					}
					for _, l := range s.Logs()[counts[i]:] {
						if i != pi {
							bad("the connection goes to port %d", portOf(i))
						} else if log == nil {
							log = l
						} else {
							bad("more than one connection")
						}
					}
				}
				if log == nil {
					bad("no connection to port %d: %v", portOf(pi), err)
					return
				}
				log.Closed(5 * time.Second)
				if log.Startup == nil {
					bad("no session: %v", err)
					return
				}
				r.count("transitions", len(log.Sent))
				host, _, _ := net.SplitHostPort(log.Local)
				if w := pick(pHost, opt, env, "127.0.0.2", "127.0.0.3", ""); host != w && (w != "" || host != "127.0.0.1" && host != "::1") {
					bad("the host is %s", host)
				}
				u := pick(pUser, opt, env, "optuser", "envuser", me.Username)
				if log.Startup["user"] != u {
					bad("the user is %q", log.Startup["user"])
				}
				d := pick(pDatabase, opt, env, "optdb", "envdb", "")
				if x := log.Startup["database"]; x != d && (d != "" || x != u) {
					bad("the database is %q", x)
				}
				if log.Password == nil || *log.Password != password {
					bad("the password is not %q", password)
				}
				if err != nil {
					bad("connecting fails: %v", err)
				}
				return
			}
			problems := try()
			if len(problems) > 0 {
				problems = try()
			}
			for _, m := range problems {
				r.add(fmt.Sprintf("options %05b environment %05b: %s", opt, env, m), "with the options %v and the variables %v set: %s", named(opt), named(env), m)
			}
		}
	}
}

func named(m int) (out []string) {
	for i, s := range []string{"host", "port", "user", "password", "database"} {
		if m>>i&1 == 1 {
			out = append(out, s)
		}
	}
	return
}

func casesC13() (out []kase) {
	out = append(out, kase{"precedence", func(_ string, r *result) { precedence(r) }})
	max := 3
	if thorough {
		max = 4
	}
	for retries := -1; retries <= max; retries++ {
		limit := retries + 1
		if limit < 1 {
			limit = 1
		}
		// every sequence of failures, of every length up to the limit, ended
		// by a success unless it is of full length
		for n := 0; n <= limit; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= accepted
			}
			for x := 0; x < total; x++ {
				seq := make([]int, n)
				for i, y := 0, x; i < n; i, y = i+1, y/accepted {
					seq[i] = y % accepted
				}
				for _, after := range []int{accepted, 0, 1} {
					s := seq
					if n < limit {
						s = append(append([]int{}, seq...), accepted)
					}
					out = append(out, kase{fmt.Sprintf("retries %d %v then %d", retries, s, after), func(_ string, r *result) { attempts(r, retries, s, after) }})
				}
			}
		}
	}
	for _, retries := range []int{6, 9, 12} {
		for o := range outcomes[:accepted] {
			for _, n := range []int{retries, retries + 1} {
				s := make([]int, n)
				for i := range s {
					s[i] = o
				}
				out = append(out, kase{fmt.Sprintf("retries %d, %d times %d", retries, n, o), func(_ string, r *result) { attempts(r, retries, s, accepted) }})
			}
		}
	}
	return
}
