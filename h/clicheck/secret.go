//go:build go1.22

package main

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- C32: passwords stay secret

// A leak is a command line in a world that knows a password.
type leak struct {
	cmd    string // "ping", "inspect", "run", "list", "dot"
	source string // where the password comes from
	secret string
	flags  []string
	server string
	mode   string
}

var secrets = []string{
	"Qx7Zk9vB2m",
	`p:a\s%s Qx7Zk9 "wörd"' {{.}}`,
	"Qx7Zk9" + strings.Repeat("=", 70),
	"postgres://u:Qx7Zk9@h/?x=1",
	"190734655512",
}

// forms are the ways a secret could be written.
func forms(s string) (out []string) {
	add := func(f string) {
		for _, x := range out {
			if x == f {
				return
			}
		}
		out = append(out, f)
	}
	add(s)
	q := strconv.Quote(s)
	add(q[1 : len(q)-1])
	q = strconv.QuoteToASCII(s)
	add(q[1 : len(q)-1])
	add(url.QueryEscape(s))
	add(url.PathEscape(s))
	add(url.UserPassword("u", s).String())
	add(strings.ReplaceAll(s, "'", "''"))
	add(strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", `\'`))
	add(base64.StdEncoding.EncodeToString([]byte(s)))
	add(base64.RawURLEncoding.EncodeToString([]byte(s)))
	add(hex.EncodeToString([]byte(s)))
	h := md5.Sum([]byte(s + "u"))
	add(hex.EncodeToString(h[:]))
	b := fmt.Sprint([]byte(s))
	add(b[1 : len(b)-1])
	for _, n := range []string{"Qx7Zk9", "Qx7Zk"} { // most of it is too much
		if strings.Contains(s, n) {
			add(n)
		}
	}
	return
}

var sources = []string{"variable", "file", "file among others", "variable and file", "runbook", "runbook over variable"}

// servers are ways to treat a client.
var servers = []struct {
	name string
	set  func(p *pgsrv.Plan, secret string)
}{
	{"trust", func(p *pgsrv.Plan, s string) {}},
	{"cleartext", func(p *pgsrv.Plan, s string) { p.Auth, p.Password = "cleartext", s }},
	{"md5", func(p *pgsrv.Plan, s string) { p.Auth, p.Password = "md5", s }},
	{"cleartext, another", func(p *pgsrv.Plan, s string) { p.Auth, p.Password = "cleartext", "x" }},
	{"md5, another", func(p *pgsrv.Plan, s string) { p.Auth, p.Password = "md5", "x" }},
	{"closed at once", func(p *pgsrv.Plan, s string) { p.Drop = "accept" }},
	{"closed at the start", func(p *pgsrv.Plan, s string) { p.Drop = "startup" }},
	{"rejected", func(p *pgsrv.Plan, s string) { p.Reject = "28P01" }},
	{"cleartext, then rejected", func(p *pgsrv.Plan, s string) { p.Auth, p.Password, p.Reject = "cleartext", s, "3D000" }},
	{"cleartext, then garbage", func(p *pgsrv.Plan, s string) {
		p.Auth, p.Password, p.FaultAt, p.FaultKind, p.FaultCut = "cleartext", s, 1, "garbage", 3
	}},
}

func init() {
	for _, k := range []string{"close", "fatal", "error", "garbage"} {
		for _, n := range []int{1, 2, 3, 4, 5, 8, 12} {
			k, n := k, n
			servers = append(servers, struct {
				name string
				set  func(p *pgsrv.Plan, secret string)
			}{fmt.Sprintf("md5, %s at message %d", k, n), func(p *pgsrv.Plan, s string) {
				p.Auth, p.Password, p.FaultAt, p.FaultKind, p.FaultCode = "md5", s, n, k, "XX000"
			}})
		}
	}
}

func (l leak) name() string {
	return fmt.Sprintf("%s %q, server %s, sslmode %q, password %q from %s", l.cmd, l.flags, l.server, l.mode, l.secret, l.source)
}

func (l leak) run(r *result, w *world) {
	port := strconv.Itoa(int(w.ports[0]))
	esc := strings.NewReplacer(`\`, `\\`, ":", `\:`)
	env := map[string]string{"PGHOST": "127.0.0.1", "PGPORT": port, "PGUSER": "u", "PGDATABASE": "d", "PGSSLMODE": "", "PGPASSWORD": "", "PGPASSFILE": "none"}
	file := "127.0.0.1:" + port + ":d:u:" + esc.Replace(l.secret) + "\n"
	inBook := ""
	switch l.source {
	case "variable":
		env["PGPASSWORD"] = l.secret
	case "file":
		env["PGPASSFILE"] = "passfile"
	case "file among others":
		env["PGPASSFILE"] = "passfile"
		file = "# " + l.secret + "\n\nother:*:*:*:" + esc.Replace(l.secret) + "\nmalformed " + l.secret + "\n*:*:*:*:" + esc.Replace(l.secret) + ":more\n"
	case "variable and file":
		env["PGPASSWORD"], env["PGPASSFILE"] = "x", "passfile"
	case "runbook over variable":
		env["PGPASSWORD"] = "x"
		fallthrough
	default:
		inBook = fmt.Sprintf(`, "password": %s`, strconv.QuoteToASCII(l.secret))
	}
	var toks []string
	switch l.cmd {
	case "ping", "inspect":
		toks = []string{l.cmd, "--host=127.0.0.1", "--port=" + port}
		if l.mode != "" {
			toks = append(toks, "--sslmode="+l.mode)
		}
	default:
		mode := ""
		if l.mode != "" {
			mode = fmt.Sprintf(`, "sslmode": %q`, l.mode)
		}
		book := fmt.Sprintf(`{"targets": {"t": {"class": "pg", "config": {"host": "127.0.0.1", "port": %s%s%s}}},
			"tasks": {"x": {"target": "t", "message": "one", "config": {"sql": "select 1"}}, "y": {"target": "t", "after": ["x"], "config": {"sql": "select 2"}}}}`, port, mode, inBook)
		cases.Must(os.WriteFile("secret.json", []byte(book), 0o644))
		toks = []string{"runbook", l.cmd, "secret.json"}
		if l.cmd == "damaged" { // a place that is refused
			toks[1] = "run"
			book = strings.Replace(book, `"port"`, `"concurrency": "1", "port"`, 1)
			cases.Must(os.WriteFile("secret.json", []byte(book), 0o644))
		}
	}
	for _, f := range l.flags {
		toks = append(toks, strings.Fields(f)...)
	}
	for k, v := range env {
		os.Setenv(k, v)
	}
	cases.Must(os.WriteFile("passfile", []byte(file), 0o600))
	os.Remove("debug.log")
	os.Remove("out.hcl")
	w.mu.Lock()
	w.plan2 = func() (pgsrv.Plan, bool) {
		p := pgsrv.Plan{DB: pgsrv.Sample()}
		if l.cmd == "run" {
			p.Simple = func(string) pgsrv.Reply {
				return pgsrv.Reply{Msgs: []pgsrv.Raw{{'C', []byte("SELECT 1\x00")}}}
			}
		}
		if strings.HasPrefix(l.mode, "re") || l.mode == "prefer" || l.mode == "" || l.mode == "verify-full" {
			p.TLS = w.cert
		}
		for _, s := range servers {
			if s.name == l.server {
				s.set(&p, l.secret)
			}
		}
		return p, true
	}
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.plan2 = nil
		w.mu.Unlock()
		for k := range env {
			os.Unsetenv(k)
		}
	}()
	var counts []int
	for _, s := range w.srvs {
		counts = append(counts, len(s.Logs()))
	}
	var so, se bytes.Buffer
	if problem := cases.Guarded(func() { _ = w.process(toks, &so, &se) }); problem != "" {
		r.Add(l.name(), "%s: %s", l.name(), problem)
		return
	}
	r.State()
	r.Count("transitions", len(toks))
	for i, s := range w.srvs {
		for _, x := range s.Logs()[counts[i]:] {
			x.Closed(5 * time.Second)
			if x.Password != nil {
				r.Count("passwords sent to a server", 1)
			}
		}
	}
	debug, _ := os.ReadFile("debug.log")
	out, _ := os.ReadFile("out.hcl")
	shown := 0
	for _, o := range []struct{ where, text string }{{"standard output", so.String()}, {"standard error", se.String()}, {"debug log", string(debug)}, {"output file", string(out)}} {
		shown += len(o.text)
		for _, f := range forms(l.secret) {
			if at := strings.Index(o.text, f); at >= 0 {
				r.Add(l.name()+": in the "+o.where, "%s: the password is in the %s: %q", l.name(), o.where, o.text[max(0, at-60):min(len(o.text), at+len(f)+20)])
				break
			}
		}
	}
	r.Count("bytes of output searched", shown)
}

func leaks() (out []leak) {
	flags := [][]string{nil, {"-v"}, {"-vv"}, {"-qq"}, {"--debug debug.log"}, {"-q", "--debug debug.log"}}
	modes := []string{"", "disable", "allow", "prefer", "require", "verify-full", "nonsense"}
	for _, c := range []string{"ping", "inspect", "run", "list", "dot", "damaged"} {
		for _, src := range sources {
			if strings.HasPrefix(src, "runbook") && (c == "ping" || c == "inspect") {
				continue
			}
			for si, sec := range secrets {
				for fi, f := range flags {
					for vi, srv := range servers {
						for _, m := range modes {
							offline := c == "list" || c == "dot" || c == "damaged"
							if offline && (vi > 0 || m != "" && m != "require") {
								continue
							}
							if c == "dot" && fi == 4 {
								f = []string{"--debug debug.log", "--output=out.hcl"}
							}
							if c == "inspect" && fi == 4 {
								f = []string{"--debug debug.log", "--output=out.hcl"}
							}
							if !cases.Thorough && !offline {
								// the noisiest output with everything; everything with the plainest password
								noisy := fi == 2 || fi == 4
								if !noisy && (m != "disable" || vi > 4) || vi > 9 && (m != "disable" || si > 0 || fi != 4) || vi > 4 && si > 1 || m != "disable" && m != "require" && vi > 1 || m != "disable" && si > 1 {
									continue
								}
							}
							out = append(out, leak{c, src, sec, f, srv.name, m})
						}
					}
				}
			}
		}
	}
	return
}

func casesC32() (out []cases.Case) {
	all := leaks()
	const size = 20
	for i := 0; i < len(all); i += size {
		part := all[i:min(i+size, len(all))]
		out = append(out, cases.Case{Name: fmt.Sprintf("%s from %d", part[0].cmd, i), Run: func(r *result) {
			w, err := program()
			if w == nil {
				r.Broken = err
				return
			}
			for _, l := range part {
				l.run(r, w)
			}
		}})
	}
	return
}
