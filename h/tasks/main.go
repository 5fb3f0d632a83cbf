//go:build go1.22

// Command tasks decides the properties of task sets (internal/taskset) and
// of the demonstration targets.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/mc"
)

type result = cases.Result

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && has(os.Args, "-worker") {
		os.Stdout = f // the queues print the names of tasks
	}
	cases.Main(map[string]cases.Prop{
		"C24": {
			Level: "model_checking",
			Cases: queueCases,
			Notes: map[string]any{"states_are": "states of the real queue and its clients under a controlled scheduler"},
			Assume: []string{
				"a client either collects while it submits, or never submits more than the queue can hold",
				"limits are positive",
			},
		},
		"C25": {
			Level:  "model_checking",
			Cases:  parseCases,
			Notes:  map[string]any{"states_are": "documents, each loaded by the real code"},
			Assume: []string{"numbers and booleans in the place of text, null in the place of nothing, and limits below one may be refused or taken"},
		},
		"C26": {
			Level: "model_checking",
			Cases: demoCases,
			Notes: map[string]any{"states_are": "executions of the real tasks with a scheduling point before every statement and every store, and sequences of tasks"},
			Assume: []string{
				"a read and the statement that it is part of are one step, except that a store is a step of its own",
				"strings are valid UTF-8",
			},
		},
	})
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// explore runs one exploration for a case.
func explore(r *result, name string, o mc.Options, body func(*mc.Exec)) {
	res := mc.Explore(o, body)
	if !res.Complete && len(res.Violations) == 0 {
		r.Broken = "the exploration is not complete"
		return
	}
	r.Count("schedules", res.Execs)
	r.Count("states", res.States)
	r.Count("transitions", res.Transitions)
	r.Count("evaluations", res.Execs)
	r.Count("traces_validated_against_impl", res.Execs)
	for i, v := range res.Violations {
		if i == 3 {
			break
		}
		o.Replay, o.Trace, o.Stop = v.Decisions, true, nil
		again := mc.Explore(o, body)
		var tr []string
		if len(again.Violations) > 0 {
			for _, s := range again.Violations[0].Trace {
				tr = append(tr, s.Thread+": "+s.What)
			}
		}
		if len(tr) > 60 {
			tr = append(append(append([]string{}, tr[:20]...), "..."), tr[len(tr)-40:]...)
		}
		msg, _, _ := strings.Cut(v.Msg, "\n")
		r.Add(name+": "+msg, "%s: %s\n    %s", name, v.Msg, strings.Join(tr, "\n    "))
	}
}

func join(ns []int) string { return strings.Trim(strings.ReplaceAll(fmt.Sprint(ns), " ", "+"), "[]") }
