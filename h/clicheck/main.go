//go:build go1.22

// Command clicheck decides C27, C28, C30, C32, C34 and C35: the log and the command line.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

type result = cases.Result

func main() {
	cases.Main(map[string]cases.Prop{
		"C27": {Level: "model_checking", Cases: casesC27,
			Notes:  map[string]any{"states_are": "sequences of messages with a verbosity and a pair of outputs, each logged by the real logger", "transitions_are": "messages"},
			Assume: []string{"messages are logged one after another", "the log of a terminal is read from a pseudo terminal where one can be opened"}},
		"C28": {Level: "model_checking", Cases: casesC28,
			Notes: map[string]any{"states_are": "command lines, each parsed and executed by the real code", "transitions_are": "tokens"},
			Assume: []string{
				"no PostgreSQL is available here: the servers are models of the protocol; which server, user, database and security the options select is read from the connections that arrive",
				"not decided: TLS over unix sockets, help, completion, @file arguments, flags that are given more than once, empty values",
				"--sort-indexes has no effect of its own to observe (known finding K3 of C17): only that it is accepted and changes nothing else"}},
		"C30": {Level: "model_checking", Cases: casesC30,
			Notes:  map[string]any{"states_are": "command lines with a world around them, each executed as a real process", "transitions_are": "tokens"},
			Assume: []string{"no PostgreSQL is available here: the servers are models of the protocol", "not decided: what is printed for help"}},
		"C34": {Level: "fault_enumeration", Cases: casesC34,
			Notes:  map[string]any{"states_are": "commands in a directory, each executed as a real process; the directory is compared before and after", "transitions_are": "tokens"},
			Assume: []string{"no PostgreSQL is available here: the servers are models of the protocol", "what tasks do themselves while a runbook is run is not the program's", "not decided: an output that is cut short while it is written (C12), files outside of the directory"}},
		"C35": {Level: "model_checking", Cases: casesC35,
			Notes:  map[string]any{"states_are": "runs of runbooks whose tasks write known texts, each executed as a real process", "transitions_are": "tasks"},
			Assume: []string{"the log shares the standard output: with more verbosity the tasks' texts are looked for in their order, and texts without a line's end may be followed by a log line"}},
		"C32": {Level: "model_checking", Cases: casesC32,
			Notes: map[string]any{"states_are": "command lines with a password, a server and a verbosity, each executed as a real process", "transitions_are": "tokens"},
			Assume: []string{"no PostgreSQL is available here: the servers are models of the protocol and do not echo passwords themselves",
				"a password is looked for in clear, quoted, escaped, URL-encoded, in base64, in hexadecimal and as PostgreSQL's MD5"}},
	})
}

// scratch is a directory of this process.
func scratch() string {
	d := filepath.Join(cases.Tmp, fmt.Sprint("p", os.Getpid()))
	cases.Must(os.MkdirAll(d, 0o755))
	return d
}
