//go:build go1.22

// Command pgcheck decides C13 to C17: connecting to a server and inspecting
// its catalog, over the real driver and a server that follows a plan.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/ev"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
	"github.com/sjansen/pgutil/internal/zzverif/pool"
	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

var (
	prop     = flag.String("prop", "C16", "")
	worker   = flag.Bool("worker", false, "")
	only     = flag.String("case", "", "")
	thorough = ev.Thorough()
	tmp      = os.Getenv("VERIF_TMP")
)

// A result is what one case found.
type result struct {
	Viol   [][2]string    `json:"v,omitempty"` // signature, description
	Counts map[string]int `json:"c,omitempty"`
	Broken string         `json:"b,omitempty"` // the harness can't decide
}

func (r *result) add(sig, f string, a ...any) {
	r.Viol = append(r.Viol, [2]string{sig, fmt.Sprintf(f, a...)})
}

func (r *result) count(k string, n int) {
	watch.Tick()
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

// A kase is one item of work.
type kase struct {
	name string
	run  func(name string, r *result)
}

func listen() net.Listener {
	l, err := pgsrv.Listen("127.0.0.1")
	if err != nil {
		fmt.Fprintln(os.Stderr, "pgcheck:", err)
		os.Exit(3)
	}
	return l
}

func options(s *pgsrv.Server) *pg.Options {
	return &pg.Options{Log: zap.NewNop().Sugar(), Host: "127.0.0.1", Port: s.Port(), SSLMode: "disable", Username: "u", Database: "d"}
}

// guarded runs f and reports a panic, or that it doesn't end.
func guarded(f func()) (problem string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Sprintf("it panics: %v", x)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(90 * time.Second):
		return "it does not return (90 s)"
	}
}

func allCases() []kase {
	switch *prop {
	case "C13":
		return casesC13()
	case "C14":
		return casesC14()
	case "C15":
		return casesC15()
	case "C16":
		return casesC16()
	case "C17":
		return casesC17()
	case "C33":
		return casesC33()
	}
	panic(*prop)
}

func main() {
	replay := flag.String("replay", "", "a file written by a run that found a violation")
	flag.Parse()
	if *replay != "" {
		*only = cases.ReplayCase(*replay)
	}
	os.Setenv("PGPASSFILE", tmp+"/no-such-file")
	if *prop == "C14" {
		setupTLS()
	}
	ks := allCases()
	work := func(i int) any {
		r := &result{}
		ks[i].run(ks[i].name, r)
		return r
	}
	if *worker {
		pool.Worker(work)
		return
	}
	rep := ev.New(*prop, levels[*prop])
	total := map[string]int{}
	stop := ev.Budget(500*time.Second, 3*time.Hour)
	done := 0
	handle := func(i int, msg json.RawMessage) bool {
		var r result
		if err := json.Unmarshal(msg, &r); err != nil {
			panic(err)
		}
		if r.Broken != "" {
			fmt.Fprintf(os.Stderr, "pgcheck: %s: %s\n", ks[i].name, r.Broken)
			os.Exit(3)
		}
		for _, v := range r.Viol {
			rep.Add(v[0], v[1], map[string]string{"case": ks[i].name})
		}
		for k, n := range r.Counts {
			total[k] += n
		}
		done++
		return !stop() && (len(rep.Violations) < 400 || os.Getenv("VERIF_ALL") != "")
	}
	if *only != "" {
		for i, k := range ks {
			if k.name == *only {
				b, _ := json.Marshal(work(i))
				handle(i, b)
			}
		}
	} else {
		for _, i := range pool.Run(len(ks), nil, append([]string{"-worker"}, os.Args[1:]...), handle) {
			rep.Addf("lost "+ks[i].name, "the process dies in case %s", ks[i].name)
		}
	}
	rep.Coverage["cases"] = done
	rep.Coverage["complete"] = done == len(ks)
	for k, n := range total {
		rep.Coverage[k] = n
	}
	for k, v := range notes[*prop] {
		rep.Coverage[k] = v
	}
	var samples []string
	for i := 0; i < len(ks); i += 1 + len(ks)/12 {
		samples = append(samples, ks[i].name)
	}
	rep.Coverage["samples"] = samples
	rep.Assumptions = assumptions[*prop]
	rep.Finish()
}

var levels = map[string]string{"C13": "model_checking", "C14": "model_checking", "C15": "fault_enumeration", "C16": "model_checking", "C17": "model_checking", "C33": "model_checking"}
var notes = map[string]map[string]any{
	"C13": {"states_are": "outcome sequences of the attempts with a number of retries, and combinations of options and variables, each executed by the real code", "transitions_are": "pauses, connections and protocol messages"},
	"C14": {"states_are": "client configurations with a server behaviour, each executed by the real code over real TLS", "transitions_are": "protocol messages"},
	"C15": {"rule": "a server that speaks the protocol and answers every catalog query from a small catalog replaces one message, for every message of the session in turn, by every kind of fault: the connection is closed in order, reset, closed in the middle of the message, an error report, a fatal error report, an unknown message"},
	"C16": {"states_are": "catalogs, each inspected by the real code through the real driver", "transitions_are": "protocol messages of the server"},
	"C33": {"states_are": "questions asked on a connection with a history, each answered by the real code", "transitions_are": "protocol messages of the server"},
	"C17": {"states_are": "catalogs with a combination of the sort options, each inspected by the real code", "transitions_are": "protocol messages of the server"},
}
var server = "the server is a model: it evaluates the queries it gets over relations with the columns of pg_catalog, filled from a small catalog; its definitions are written the way PostgreSQL's ruleutils prints them; no PostgreSQL is available here to compare it with"
var assumptions = map[string][]string{
	"C13": {"time is virtual: a pause ends at once and the world moves on", "no PostgreSQL is available here: the server is a model of the protocol"},
	"C14": {"no PostgreSQL is available here: the server is a model of the start of a session; certificates are made for each run", "outside: PGSSLROOTCERT with PGSSLMODE allow (the driver panics) or disable (the driver does not read it), client certificates, TLS over unix sockets; verify-ca as an option may be refused"},
	"C15": {server, "after one fault the server follows the protocol", "stalls without an error are not faults here: the program has no timeouts"},
	"C16": {server, "objects are those that the search path makes visible; storage parameters are those that the description knows"},
	"C17": {server},
	"C33": {server, "the definitions of indexes and triggers of a table that is not on the search path name its schema and may be refused"},
}
