//go:build go1.22

// Package cases runs an enumerated list of cases on worker processes and
// reports what they find.
package cases

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/ev"
	"github.com/sjansen/pgutil/internal/zzverif/pool"
	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

// Tmp is a scratch directory; it is removed after the check.
var Tmp = os.Getenv("VERIF_TMP")

// Thorough is the tier.
var Thorough = ev.Thorough()

// A Result is what one case found.
type Result struct {
	Viol   [][2]string    `json:"v,omitempty"` // signature, description
	Counts map[string]int `json:"c,omitempty"`
	Broken string         `json:"b,omitempty"` // the harness can't decide
}

// Add reports a violation.
func (r *Result) Add(sig, f string, a ...any) {
	r.Viol = append(r.Viol, [2]string{sig, fmt.Sprintf(f, a...)})
}

// Count adds to a number of the evidence.
func (r *Result) Count(k string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

// State counts one explored state that was executed on the real code.
func (r *Result) State() {
	watch.Tick()
	r.Count("states", 1)
	r.Count("evaluations", 1)
	r.Count("traces_validated_against_impl", 1)
}

// A Case is one item of work.
type Case struct {
	Name string
	Run  func(r *Result)
}

// Prop describes one property.
type Prop struct {
	Level   string
	Cases   func() []Case
	Notes   map[string]any
	Assume  []string
	Prepare func(worker bool) // in every process, before Cases
}

// Guarded runs f and reports a panic, or that it doesn't end.
func Guarded(f func()) (problem string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Sprintf("it panics: %v", x)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(90 * time.Second):
		return "it does not return (90 s)"
	}
}

// Must ends the process: the harness is broken.
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// ReplayCase reads the name of the case from a replay file.
func ReplayCase(file string) string {
	b, err := os.ReadFile(file)
	Must(err)
	var x struct{ Replay map[string]string }
	Must(json.Unmarshal(b, &x))
	return x.Replay["case"]
}

// Main is the main function of a harness.
func Main(props map[string]Prop) {
	prop := flag.String("prop", "", "")
	worker := flag.Bool("worker", false, "")
	only := flag.String("case", "", "")
	replay := flag.String("replay", "", "a file written by a run that found a violation")
	flag.Parse()
	if *replay != "" {
		*only = ReplayCase(*replay)
	}
	p, ok := props[*prop]
	if !ok {
		Must(fmt.Errorf("no property %q", *prop))
	}
	if p.Prepare != nil {
		p.Prepare(*worker)
	}
	ks := p.Cases()
	work := func(i int) any {
		r := &Result{}
		ks[i].Run(r)
		return r
	}
	if *worker {
		pool.Worker(work)
		return
	}
	rep := ev.New(*prop, p.Level)
	total := map[string]int{}
	stop := ev.Budget(500*time.Second, 3*time.Hour)
	done := 0
	handle := func(i int, msg json.RawMessage) bool {
		var r Result
		if err := json.Unmarshal(msg, &r); err != nil {
			panic(err)
		}
		if r.Broken != "" {
			Must(fmt.Errorf("%s: %s", ks[i].Name, r.Broken))
		}
		for _, v := range r.Viol {
			rep.Add(v[0], v[1], map[string]string{"case": ks[i].Name})
		}
		for k, n := range r.Counts {
			total[k] += n
		}
		done++
		return !stop() && (len(rep.Violations) < 400 || os.Getenv("VERIF_ALL") != "")
	}
	if *only != "" {
		fmt.Println("case:", *only)
		for i, k := range ks {
			if k.Name == *only {
				b, _ := json.Marshal(work(i))
				handle(i, b)
			}
		}
	} else {
		for _, i := range pool.Run(len(ks), nil, append([]string{"-worker"}, os.Args[1:]...), handle) {
			rep.Addf("lost "+ks[i].Name, "the process dies in case %s", ks[i].Name)
		}
	}
	rep.Coverage["cases"] = done
	rep.Coverage["complete"] = done == len(ks)
	for k, n := range total {
		rep.Coverage[k] = n
	}
	for k, v := range p.Notes {
		rep.Coverage[k] = v
	}
	var samples []string
	for i := 0; i < len(ks); i += 1 + len(ks)/12 {
		samples = append(samples, ks[i].Name)
	}
	rep.Coverage["samples"] = samples
	rep.Assumptions = p.Assume
	rep.Finish()
}
