//go:build go1.22

// Command bookcheck decides C08 to C12: loading, showing and executing
// runbooks.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

type result = cases.Result

func main() {
	cases.Main(map[string]cases.Prop{
		"C08": {Level: "model_checking", Cases: casesC08,
			Notes: map[string]any{"states_are": "runbook documents, each loaded by the real code", "transitions_are": "changes of a document"},
			Assume: []string{
				"null in place of a setting, a list or a table may be refused or taken as left out; only null in place of a target or a task must be refused",
				"the spelling of a field's capitals and a program named by the empty string are not decided"}},
		"C09": {Level: "model_checking", Cases: casesC09,
			Notes:  map[string]any{"states_are": "environments with the filters of a target and of a task, each passed through the real code; a part of them through a real process", "transitions_are": "variables"},
			Assume: []string{"variables are named and appear once in the inherited environment"}},
		"C10": {Level: "model_checking", Cases: casesC10,
			Notes:  map[string]any{"states_are": "tasks with a caller's directory, each executed by the real code as a real process", "transitions_are": "processes"},
			Assume: []string{"programs end by themselves"}},
		"C11": {Level: "model_checking", Cases: casesC11,
			Notes:  map[string]any{"states_are": "runbooks, each shown by the real commands", "transitions_are": "entries of the output that were read back"},
			Assume: []string{"names are valid UTF-8"}},
		"C12": {Level: "fault_enumeration", Cases: casesC12,
			Notes:  map[string]any{"rule": "every command's output is cut at every byte and at every call, with an error and without one, and directed to a full device"},
			Assume: []string{"errors that only appear when a file is closed can not be produced here"}},
	})
}

// scratch is a directory of this process.
func scratch() string {
	d := filepath.Join(cases.Tmp, fmt.Sprint("p", os.Getpid()))
	cases.Must(os.MkdirAll(d, 0o755))
	return d
}

func write(name, text string) string {
	p := filepath.Join(scratch(), name)
	if d := filepath.Dir(p); d != scratch() {
		cases.Must(os.MkdirAll(d, 0o755))
	}
	cases.Must(os.WriteFile(p, []byte(text), 0o644))
	return p
}

func quiet() (*sys.IO, *bytes.Buffer, *bytes.Buffer) {
	var o, e bytes.Buffer
	return &sys.IO{Log: zap.NewNop().Sugar(), Stdout: &o, Stderr: &e}, &o, &e
}

func js(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	cases.Must(e.Encode(v))
	return string(bytes.TrimSpace(b.Bytes()))
}
