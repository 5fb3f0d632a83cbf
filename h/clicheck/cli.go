//go:build go1.22

package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/cli"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/cases"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- what a command line says

// An item is something on a command line: one or two tokens.
type item struct {
	opt  string // "" is the argument of a command
	toks []string
	val  string
}

// A line is a command line with what it has to mean.
type line struct {
	toks    []string
	cmd     string            // "" if it has to be refused
	opts    map[string]string // what is given
	file    string
	v, q    int
	debug   bool
	explain string
}

// ---- the world: servers and files

const (
	modeTLS   = iota // TLS with a certificate nobody trusts
	modeNoPln        // the same, and no session without it
	modePlain        // no TLS
	modes
)

type world struct {
	dir   string
	ports [2]uint16
	sock  string
	srvs  []*pgsrv.Server
	where []string // of each server: the host an option would name, and the port

	mu   sync.Mutex
	mode int
	cert *tls.Config

	book   map[string]string // outputs of the runbook commands, by file and kind
	result map[string]string // outputs of inspect, by sort options
	ping   string

	program string // a program to execute instead of calling the parser
	plan2   func() (pgsrv.Plan, bool)
}

var theWorld *world
var worldErr string

func (w *world) plan(int) pgsrv.Plan {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.plan2 != nil {
		if p, ok := w.plan2(); ok {
			return p
		}
	}
	p := pgsrv.Plan{DB: pgsrv.Sample()}
	switch w.mode {
	case modeTLS:
		p.TLS = w.cert
	case modeNoPln:
		p.TLS, p.NoPlain = w.cert, true
	}
	return p
}

func (w *world) set(mode int) {
	w.mu.Lock()
	w.mode = mode
	w.mu.Unlock()
}

func certificate() *tls.Config {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	cases.Must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "nobody"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"nobody.invalid"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	cases.Must(err)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
}

const bookA = `{targets: {t: {class: "demo", config: {string: "Uryyb"}}},
 tasks: {one: {target: "t/echo"}, two: {target: "t/rot13", after: ["one"]}, three: {target: "t/echo", after: ["two"]}}}
`

const bookB = `{"targets": {"other": {"class": "demo", "config": {"string": "from b"}}}, "tasks": {"x": {"target": "other/echo"}}}
`

var files = []string{"a.jsonnet", "sub/b.json", "noext", "-dash.json", "sp ace.é", "v1.2.json", "d.ir/noext"}

func getWorld() (*world, string) {
	if theWorld != nil || worldErr != "" {
		return theWorld, worldErr
	}
	w := &world{dir: filepath.Join(scratch(), "cwd"), cert: certificate(), book: map[string]string{}, result: map[string]string{}}
	fail := func(err error) bool {
		if err != nil {
			worldErr = err.Error()
		}
		return err != nil
	}
	if fail(os.MkdirAll(filepath.Join(w.dir, "sub"), 0o755)) || fail(os.MkdirAll(filepath.Join(w.dir, "d.ir"), 0o755)) || fail(os.Chdir(w.dir)) {
		return nil, worldErr
	}
	for i, f := range files {
		text := bookA
		if i%2 == 1 {
			text = bookB
		}
		if fail(os.WriteFile(f, []byte(text), 0o644)) {
			return nil, worldErr
		}
	}
	// two ports, each on two addresses and in one directory
	for tries := 0; ; tries++ {
		if tries == 50 {
			worldErr = "no free ports"
			return nil, worldErr
		}
		var ls []net.Listener
		var ports [2]uint16
		ok := true
		for i := range ports {
			l, err := pgsrv.Listen("127.0.0.1")
			if fail(err) {
				return nil, worldErr
			}
			ports[i] = uint16(l.Addr().(*net.TCPAddr).Port)
			l2, err := net.Listen("tcp", fmt.Sprintf("127.0.0.2:%d", ports[i]))
			ls = append(ls, l)
			if err != nil {
				ok = false
				break
			}
			ls = append(ls, l2)
		}
		if !ok {
			for _, l := range ls {
				l.Close()
			}
			continue
		}
		w.ports = ports
		for i, l := range ls {
			w.srvs = append(w.srvs, pgsrv.Serve(l, w.plan))
			w.where = append(w.where, fmt.Sprintf("127.0.0.%d P%d", i%2+1, i/2+1))
		}
		break
	}
	w.sock = filepath.Join(scratch(), "s")
	if fail(os.MkdirAll(w.sock, 0o755)) {
		return nil, worldErr
	}
	for i, p := range w.ports {
		l, err := net.Listen("unix", filepath.Join(w.sock, fmt.Sprintf(".s.PGSQL.%d", p)))
		if fail(err) {
			return nil, worldErr
		}
		w.srvs = append(w.srvs, pgsrv.Serve(l, w.plan))
		w.where = append(w.where, fmt.Sprintf("SOCK P%d", i+1))
	}
	// what the commands print, from the same functions without the command line
	w.set(modePlain)
	for x := 0; x < 8; x++ {
		conn, err := pg.New(&pg.Options{Log: zap.NewNop().Sugar(), Host: "127.0.0.1", Port: w.ports[0], Username: "u", Database: "d", SSLMode: "disable"})
		if fail(err) {
			return nil, worldErr
		}
		db, err := conn.InspectDatabase(&pg.InspectOptions{SortColumns: x&1 != 0, SortChecks: x&2 != 0, SortIndexes: x&4 != 0})
		if fail(err) {
			return nil, worldErr
		}
		v, err := conn.ServerVersion()
		if fail(err) {
			return nil, worldErr
		}
		w.ping = v + "\n"
		var b bytes.Buffer
		if fail(db.Write(&b)) {
			return nil, worldErr
		}
		w.result[fmt.Sprint(x)] = b.String()
		conn.Close()
	}
	for _, f := range files {
		f := f
		put := func(kind string, do func(io *sys.IO, b *bytes.Buffer) error) {
			var b bytes.Buffer
			if err := do(&sys.IO{Log: zap.NewNop().Sugar(), Stdout: &b, Stderr: &b}, &b); err != nil {
				worldErr = err.Error()
			}
			w.book[f+" "+kind] = b.String()
		}
		for _, s := range []string{"", "curved", "line", "ortho"} {
			put("dot "+s, func(io *sys.IO, b *bytes.Buffer) error { return runbook.Dot(io, f, b, s) })
		}
		put("eval true", func(io *sys.IO, b *bytes.Buffer) error { return runbook.Eval(io, f, b, true) })
		put("eval false", func(io *sys.IO, b *bytes.Buffer) error { return runbook.Eval(io, f, b, false) })
		put("run", func(io *sys.IO, b *bytes.Buffer) error { return runbook.Run(io, f) })
		put("list", func(io *sys.IO, b *bytes.Buffer) error {
			m, err := runbook.List(io, f)
			var ids []string
			for id := range m {
				ids = append(ids, string(id))
			}
			sort.Strings(ids)
			for _, id := range ids {
				fmt.Fprintln(b, id, m[runbook.TaskID(id)])
			}
			return err
		})
	}
	if worldErr == "" {
		theWorld = w
	}
	return theWorld, worldErr
}

// real puts the names of this process's world into a token.
func (w *world) real(s string) string {
	s = strings.ReplaceAll(s, "P1", strconv.Itoa(int(w.ports[0])))
	s = strings.ReplaceAll(s, "P2", strconv.Itoa(int(w.ports[1])))
	return strings.ReplaceAll(s, "SOCK", w.sock)
}

var environments2 = []map[string]string{
	{"PGHOST": "127.0.0.2", "PGPORT": "P2", "PGUSER": "envuser", "PGDATABASE": "envdb", "PGSSLMODE": "disable"},
	{"PGHOST": "SOCK", "PGPORT": "P1", "PGUSER": "envuser", "PGDATABASE": "envdb", "PGSSLMODE": "require"},
	{"PGHOST": "127.0.0.1", "PGPORT": "P2", "PGUSER": "me"},
}

// ---- looking at what a line does

var logLine = regexp.MustCompile(`(?m)^(ERROR|WARN|INFO|DEBUG)\t.*\n`)

type outcome struct {
	refused     bool
	err         error
	out, stderr string
	logs        map[string]int
	conns       []*pgsrv.Log
	at          []int // the server of each
	problem     string
}

func (w *world) run(toks []string) (o outcome) {
	var args []string
	for _, t := range toks {
		args = append(args, w.real(t))
	}
	var counts []int
	for _, s := range w.srvs {
		counts = append(counts, len(s.Logs()))
	}
	var so, se bytes.Buffer
	o.problem = cases.Guarded(func() {
		if w.program != "" {
			o.err = w.process(args, &so, &se)
			return
		}
		cmd, err := cli.RegisterCommands("test").Parse(args)
		if err != nil {
			o.refused, o.err = true, err
			return
		}
		if cmd == nil {
			o.refused, o.err = true, errors.New("no command and no error")
			return
		}
		o.err = cmd(&so, &se)
	})
	if o.problem != "" {
		return
	}
	o.logs = map[string]int{}
	for _, m := range logLine.FindAllStringSubmatch(so.String(), -1) {
		o.logs[m[1]]++
	}
	o.out = logLine.ReplaceAllString(so.String(), "")
	o.stderr = se.String()
	for i, s := range w.srvs {
		for _, l := range s.Logs()[counts[i]:] {
			l.Closed(5 * time.Second)
			o.conns = append(o.conns, l)
			o.at = append(o.at, i)
		}
	}
	return
}

// security is what should happen in each mode of the server.
var security = map[string][modes]string{
	"disable":     {"plain", "fail", "plain"},
	"allow":       {"plain", "tls", "plain"},
	"prefer":      {"tls", "tls", "plain"},
	"require":     {"tls", "tls", "fail"},
	"verify-full": {"fail", "fail", "fail"},
}

func (w *world) check(r *result, env map[string]string, l line) {
	for _, k := range []string{"PGHOST", "PGPORT", "PGUSER", "PGDATABASE", "PGSSLMODE"} {
		if v, ok := env[k]; ok {
			os.Setenv(k, w.real(v))
		} else {
			os.Unsetenv(k)
		}
	}
	name := strings.Join(l.toks, "␣")
	said := map[string]bool{}
	bad := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		if len(m) > 400 {
			m = m[:400]
		}
		if !said[m] {
			said[m] = true
			r.Add(name+": "+m, "%q with the variables %v: %s", l.toks, env, m)
		}
	}
	ms := []int{modePlain}
	if l.cmd == "ping" || l.cmd == "inspect" {
		ms = []int{modeTLS, modeNoPln, modePlain}
	}
	for _, mode := range ms {
		w.set(mode)
		for _, f := range outputs {
			os.Remove(f)
		}
		os.WriteFile("debug.log", []byte("old\n"), 0o644)
		o := w.run(l.toks)
		r.State()
		r.Count("transitions", len(l.toks))
		if o.problem != "" {
			bad("%s", o.problem)
			return
		}
		if l.cmd == "" {
			if !o.refused && (w.program == "" || o.err == nil) {
				bad("it is not refused (%s)", l.explain)
			}
			if len(o.conns) > 0 {
				bad("it is refused but it connects to a server")
			}
			if w.program != "" && o.out+o.stderr == "" {
				bad("nothing says why it is refused")
			}
			r.Count("refused lines", 1)
			return
		}
		if o.refused {
			bad("it is refused: %v", o.err)
			return
		}
		w.logs(l, o, bad)
		if l.cmd == "ping" || l.cmd == "inspect" {
			if !w.connected(l, env, mode, o, bad) {
				continue
			}
		} else if len(o.conns) > 0 {
			bad("it connects to a server")
		}
		if o.err != nil {
			bad("it fails: %v", o.err)
			return
		}
		w.output(l, o, bad)
	}
}

// logs compares the messages that are shown with the verbosity.
func (w *world) logs(l line, o outcome, bad func(string, ...any)) {
	level := 1 + l.v - l.q
	if n := o.logs["INFO"]; (n > 0) != (level >= 2) {
		bad("%d informational messages are shown", n)
	}
	if n := o.logs["DEBUG"]; n > 0 && level < 3 {
		bad("%d debugging messages are shown", n)
	} else if n == 0 && level >= 3 && l.cmd == "ping" {
		bad("no debugging messages are shown")
	}
	b, _ := os.ReadFile("debug.log")
	rest, ok := strings.CutPrefix(string(b), "old\n")
	switch {
	case !ok:
		bad("the debug log is overwritten")
	case !l.debug && rest != "":
		bad("a debug log is written")
	case l.debug && !strings.Contains(rest, "INFO"):
		bad("the debug log has no informational messages")
	case l.debug && l.cmd == "ping" && !strings.Contains(rest, "DEBUG"):
		bad("the debug log has no debugging messages")
	}
}

// connected compares the connections with the options; it reports if there
// is a session.
func (w *world) connected(l line, env map[string]string, mode int, o outcome, bad func(string, ...any)) bool {
	pick := func(opt, v, def string) string {
		if s, ok := l.opts[opt]; ok {
			return s
		}
		if s, ok := env[v]; ok {
			return s
		}
		return def
	}
	host, port := pick("host", "PGHOST", ""), pick("port", "PGPORT", "")
	user, db := pick("username", "PGUSER", ""), pick("dbname", "PGDATABASE", "")
	if db == "" {
		db = user
	}
	ssl := pick("sslmode", "PGSSLMODE", "prefer")
	want := security[ssl][mode]
	if len(o.conns) == 0 {
		bad("it does not connect: %v", o.err)
		return false
	}
	got := "fail"
	for i, c := range o.conns {
		if x := w.where[o.at[i]]; x != host+" "+port {
			bad("it connects to %s", x)
		}
		if c.Startup != nil {
			if c.Startup["user"] != user {
				bad("the user is %q", c.Startup["user"])
			}
			if d := c.Startup["database"]; d != db && !(d == "" && db == user) {
				bad("the database is %q", d)
			}
		}
		if c.Ready {
			got = "plain"
			if c.TLS {
				got = "tls"
			}
		}
	}
	if ssl == "verify-full" && host != "SOCK" && !o.conns[0].AskedTLS {
		bad("it does not ask for TLS")
	}
	if host == "SOCK" && (got == "fail" || got != want) { // whether sockets use TLS is not decided
		want = got
	}
	if got != want {
		bad("with server %d the session is %q, not %q: %v", mode, got, want, o.err)
		return false
	}
	if want == "fail" {
		if o.err == nil {
			bad("with server %d there is no session and no error", mode)
		}
		return false
	}
	return true
}

var outputs = []string{"out1", "sub/out 2", "a.dot", "sub/b.dot", "noext.dot", "-dash.dot", "sp ace.dot", "v1.2.dot", "d.ir/noext.dot", "v1.dot", "d.dot"}

// output compares what is printed or written.
func (w *world) output(l line, o outcome, bad func(string, ...any)) {
	if o.stderr != "" {
		bad("it prints %q on the standard error", o.stderr)
	}
	dst := l.opts["output"]
	if dst == "-" {
		dst = ""
	} else if dst == "" && l.cmd == "dot" && l.opts["auto"] != "" && l.opts["output"] == "" {
		dst = strings.TrimSuffix(l.file, filepath.Ext(l.file)) + ".dot"
	}
	got := o.out
	if dst != "" {
		if got != "" {
			bad("it prints %q", got)
		}
		b, err := os.ReadFile(dst)
		if err != nil {
			bad("%v", err)
		}
		got = string(b)
	}
	for _, f := range outputs {
		if _, err := os.Lstat(f); err == nil && f != dst {
			bad("it writes %s", f)
		}
	}
	switch l.cmd {
	case "ping":
		if got != w.ping {
			bad("it prints %q", got)
		}
	case "inspect":
		x := 0
		for i, s := range []string{"sort-columns", "sort-check-constraints", "sort-indexes"} {
			if l.opts[s] == "true" {
				x |= 1 << i
			}
		}
		if got != w.result[fmt.Sprint(x)] {
			bad("the description is not the one for its options: %q", got)
		}
	case "list":
		var b strings.Builder
		for i, s := range strings.Split(strings.TrimSuffix(got, "\n"), "\n") {
			if i > 0 {
				fmt.Fprintln(&b, strings.Join(strings.Fields(s), " "))
			}
		}
		if b.String() != w.book[l.file+" list"] {
			bad("it lists %q", got)
		}
	case "dot":
		if anyOrder(got) != anyOrder(w.book[l.file+" dot "+l.opts["splines"]]) {
			bad("the graph is not the one for its options: %q", got)
		}
	case "eval":
		c := l.opts["color"]
		if c != "true" {
			c = "false"
		}
		if got != w.book[l.file+" eval "+c] {
			bad("the result is not the one for its options: %q", got)
		}
	case "run":
		if got != w.book[l.file+" run"] {
			bad("it prints %q", got)
		}
	case "version":
		first, rest, _ := strings.Cut(got, "\n")
		if first != "pgutil test" && w.program == "" || !strings.HasPrefix(first, "pgutil ") || strings.TrimSpace(first) == "pgutil" {
			bad("it prints %q", got)
		}
		if (rest != "") != (l.opts["long"] == "true") {
			bad("it prints %q", got)
		}
	default:
		panic(l.cmd)
	}
}

func anyOrder(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}
