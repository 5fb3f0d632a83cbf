//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// settings of a target: each of them reaches the connection, or its variable
// does.
func settings() (out []cases.Case) {
	out = append(out, cases.Case{Name: "settings of a target", Run: allSettings})
	for limit := 1; limit <= 3; limit++ {
		for at := 0; at < 4; at++ {
			for _, code := range []string{"53300", "closed"} {
				for retries := 0; retries <= 2; retries++ {
					for times := 1; times <= 3; times++ {
						limit, at, code, retries, times := limit, at, code, retries, times
						if cases.Thorough || at == 0 && retries < 2 || at < 2 && times == 1 && retries == 0 {
							out = append(out, cases.Case{Name: fmt.Sprintf("limit %d, %d connections from %d on rejected (%s), %d retries", limit, times, at, code, retries), Run: func(r *result) {
								rejected(r, limit, at, times, code, retries)
							}})
						}
					}
				}
			}
		}
	}
	return
}

func allSettings(r *result) {
	var mu sync.Mutex
	password := ""
	plan := func(int) pgsrv.Plan {
		mu.Lock()
		defer mu.Unlock()
		p := pgsrv.Plan{DB: pgsrv.Sample(), Simple: func(string) pgsrv.Reply { return answers[0].reply }}
		if password != "" {
			p.Auth, p.Password = "md5", password
		}
		return p
	}
	var srvs []*pgsrv.Server
	for i := 0; i < 2; i++ {
		l, err := pgsrv.Listen("")
		cases.Must(err)
		s := pgsrv.Serve(l, plan)
		defer s.Close()
		srvs = append(srvs, s)
	}
	old := map[string]string{}
	for k, v := range map[string]string{"PGHOST": "127.0.0.9", "PGPORT": fmt.Sprint(srvs[1].Port()), "PGPASSWORD": "envsecret", "PGSSLMODE": "disable"} {
		old[k] = os.Getenv(k)
		os.Setenv(k, v)
	}
	defer func() {
		for k, v := range old {
			os.Setenv(k, v)
			if v == "" {
				os.Unsetenv(k)
			}
		}
	}()
	names := []string{"host", "port", "username", "password", "database", "sslmode"}
	for m := 0; m < 64; m++ {
		for _, mode := range []string{"disable", "allow", "prefer", "require", "verify-full", "nonsense"} {
			if m>>5&1 == 0 && mode != "disable" {
				continue
			}
			vals := []any{"127.0.0.3", srvs[0].Port(), "cfguser", "cfgsecret", "cfgdb", mode}
			conf := map[string]any{}
			var given []string
			for i, n := range names {
				if m>>i&1 == 1 {
					conf[n] = vals[i]
					given = append(given, n)
				}
			}
			pick := func(i int, a, b string) string {
				if m>>i&1 == 1 {
					return a
				}
				return b
			}
			mu.Lock()
			password = pick(3, "cfgsecret", "envsecret")
			mu.Unlock()
			at := fmt.Sprintf("settings %v mode %v", given, conf["sslmode"])
			bad := func(f string, a ...any) {
				s := fmt.Sprintf(f, a...)
				r.Add(at+": "+s, "%s: %s", at, s)
			}
			b, _ := json.Marshal(map[string]any{"targets": map[string]any{"t": map[string]any{"class": "pg", "config": conf}}, "tasks": map[string]any{"x": map[string]any{"target": "t", "config": map[string]any{"sql": "select 1"}}}})
			file := filepath.Join(scratch(), "settings.json")
			cases.Must(os.WriteFile(file, b, 0o644))
			before := []int{len(srvs[0].Logs()), len(srvs[1].Logs())}
			var o bytes.Buffer
			var err error
			problem := cases.Guarded(func() {
				err = runbook.Run(&sys.IO{Log: zap.NewNop().Sugar(), Stdout: &o, Stderr: &o}, file)
			})
			r.State()
			r.Count("settings", 1)
			if problem != "" {
				bad("%s", problem)
				continue
			}
			// no server here knows TLS
			works := m>>5&1 == 1 && (mode == "disable" || mode == "allow" || mode == "prefer")
			if m>>5&1 == 0 {
				works = err == nil // what a password without a mode means is decided by C14
			}
			if works != (err == nil) {
				bad("the run's result is %v", err)
			}
			port := 0
			if m>>1&1 == 0 {
				port = 1
			}
			n := 0
			for i, s := range srvs {
				for _, l := range s.Logs()[before[i]:] {
					n++
					if i != port {
						bad("it connects to the wrong port")
					}
					if !l.Closed(patience) {
						bad("a session is still open")
						continue
					}
					if h, _, _ := net.SplitHostPort(l.Local); h != pick(0, "127.0.0.3", "127.0.0.9") {
						bad("it connects to %s", h)
					}
					if l.Startup == nil {
						continue
					}
					if u := l.Startup["user"]; u != pick(2, "cfguser", "envuser") {
						bad("the user is %q", u)
					}
					if d := l.Startup["database"]; d != pick(4, "cfgdb", "envdb") {
						bad("the database is %q", d)
					}
				}
			}
			if n == 0 && mode != "nonsense" {
				bad("it does not connect: %v", err)
			}
			if n > 0 && mode == "nonsense" && m>>5&1 == 1 {
				bad("it connects with an invalid mode")
			}
		}
	}
}

// rejected runs a runbook while some connections are rejected: the run fails
// or it executes everything, and no session stays open.
func rejected(r *result, limit, at, times int, code string, retries int) {
	var mu sync.Mutex
	got := map[string]int{}
	l, err := pgsrv.Listen("127.0.0.1")
	cases.Must(err)
	s := pgsrv.Serve(l, func(n int) pgsrv.Plan {
		p := pgsrv.Plan{DB: pgsrv.Sample(), Simple: func(sql string) pgsrv.Reply {
			mu.Lock()
			got[sql]++
			mu.Unlock()
			time.Sleep(time.Millisecond)
			return answers[0].reply
		}}
		if n >= at && n < at+times {
			if code == "closed" {
				p.Drop = "startup"
			} else {
				p.Reject = code
			}
		}
		return p
	})
	defer s.Close()
	tasks := map[string]any{}
	for i := 0; i < 5; i++ {
		tasks[fmt.Sprint("x", i)] = map[string]any{"target": "t", "config": map[string]any{"sql": fmt.Sprint("select ", i)}}
	}
	b, _ := json.Marshal(map[string]any{"targets": map[string]any{"t": map[string]any{"class": "pg", "config": map[string]any{"host": "127.0.0.1", "port": s.Port(), "sslmode": "disable", "concurrency": limit, "connect_retries": retries}}}, "tasks": tasks})
	file := filepath.Join(scratch(), "rejected.json")
	cases.Must(os.WriteFile(file, b, 0o644))
	var o bytes.Buffer
	problem := cases.Guarded(func() {
		err = runbook.Run(&sys.IO{Log: zap.NewNop().Sugar(), Stdout: &o, Stderr: &o}, file)
	})
	r.State()
	bad := func(f string, a ...any) { m := fmt.Sprintf(f, a...); r.Add(m, "%s", m) }
	if problem != "" {
		bad("%s", problem)
		return
	}
	logs := s.Logs()
	for _, l := range logs {
		if !l.Closed(patience) {
			bad("a session is still open")
		}
	}
	met := 0 // rejected connections
	for i := range logs {
		if i >= at && i < at+times {
			met++
		}
	}
	all := true
	for i := 0; i < 5; i++ {
		n := got[fmt.Sprint("select ", i)]
		all = all && n == 1
		if n > 1 {
			bad("a statement is executed %d times", n)
		}
	}
	if err == nil && !all {
		bad("it reports success without executing everything: %v", got)
	}
	if err != nil && met <= retries {
		bad("%d rejected connections with %d retries are too many: %v", met, retries, err)
	}
	if at == 0 && times > retries && err == nil {
		bad("it reports success although it can not connect")
	}
	if strings.TrimSpace(o.String()) != "" {
		bad("it prints %q", o.String())
	}
}
