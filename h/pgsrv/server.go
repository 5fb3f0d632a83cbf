//go:build go1.22

package pgsrv

import (
	"bytes"
	"crypto/md5"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Plan is what the server does with one connection.
type Plan struct {
	Drop      string      // "accept": close at once; "startup": close instead of answering the start; "ssl": close instead of answering the request for TLS
	TLS       *tls.Config // nil: TLS is refused
	NoPlain   bool        // an unencrypted session is rejected
	NoTLS     bool        // an encrypted session is rejected, after the handshake
	Auth      string      // "" trust, "cleartext", "md5"
	Password  string      // what the client has to prove
	Reject    string      // error code with which the start is rejected
	Break     string      // "handshake": close in the middle of the TLS handshake
	DB        *Catalog
	FaultAt   int    // number, from 1, of the message replaced by the fault
	FaultKind string // "close", "reset", "error", "fatal", "cut", "garbage", "null"
	FaultCode string // of "error"
	FaultCut  int    // bytes of the message that are still sent by "cut"; the column of a row that "null" empties

	// Simple answers simple queries instead of the catalog.
	Simple func(sql string) Reply
}

// Reply is what is sent for a simple query, before ReadyForQuery.
type Reply struct {
	Msgs []Raw
	End  string // "close" or "reset": end the session after the messages
}

// Raw is one message.
type Raw struct {
	T byte
	B []byte
}

// ErrorReport is an error as a message.
func ErrorReport(sev, code, text string) Raw {
	m := errorMsg(sev, code, text)
	return Raw{m[0], m[5:]}
}

// Query1 is one executed query.
type Query1 struct {
	SQL    string
	Params []any
	Rows   [][]any
	Cols   []Col
}

// Log is what the server saw of one connection.
type Log struct {
	Local        string // address the client dialled
	AskedTLS     bool
	TLS          bool
	HandshakeErr string
	Startup      map[string]string // nil if the client never started a session
	StartupPlain bool
	Password     *string // what the client sent as its password
	Plain        bytes.Buffer
	wire         recorder
	Queries      []Query1
	Sent         []string // kinds of the messages sent
	Lens         []int
	Ready        bool // the session was established
	Terminated   bool // the client said goodbye
	Faulted      bool
	done         chan struct{}
}

// Closed waits for the end of the connection.
func (l *Log) Closed(d time.Duration) bool {
	select {
	case <-l.done:
		return true
	default:
		if d <= 0 {
			return false
		}
	}
	select {
	case <-l.done:
		return true
	case <-time.After(d):
		return false
	}
}

// Raw is every byte that came over the wire, up to a limit.
func (l *Log) Raw() []byte {
	l.wire.mu.Lock()
	defer l.wire.mu.Unlock()
	return append([]byte{}, l.wire.b...)
}

type recorder struct {
	net.Conn
	mu sync.Mutex
	b  []byte
}

func (r *recorder) Read(b []byte) (int, error) {
	n, err := r.Conn.Read(b)
	r.mu.Lock()
	if len(r.b) < 4096 {
		r.b = append(r.b, b[:n]...)
	}
	r.mu.Unlock()
	return n, err
}

// Server is a listener that follows a plan.
type Server struct {
	L    net.Listener
	Plan func(i int) Plan

	mu   sync.Mutex
	logs []*Log
}

// Serve starts serving.
func Serve(l net.Listener, plan func(i int) Plan) *Server {
	s := &Server{L: l, Plan: plan}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			lg := &Log{Local: c.LocalAddr().String(), done: make(chan struct{})}
			i := len(s.logs)
			s.logs = append(s.logs, lg)
			s.mu.Unlock()
			go func() {
				defer close(lg.done)
				defer c.Close()
				lg.wire.Conn = c
				x := &session{c: &lg.wire, raw: c, p: s.Plan(i), l: lg}
				x.run()
			}()
		}
	}()
	return s
}

// Port is the port listened on.
func (s *Server) Port() uint16 { return uint16(s.L.Addr().(*net.TCPAddr).Port) }

// Logs returns what was seen so far.
func (s *Server) Logs() []*Log {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Log{}, s.logs...)
}

// Close stops listening.
func (s *Server) Close() { s.L.Close() }

type stop struct{}

type session struct {
	c, raw net.Conn
	p      Plan
	l      *Log
	out    bytes.Buffer
	n      int
	skip   bool // after an error, until Sync
	bad    bool // the error was injected
}

func (x *session) flush() {
	if x.out.Len() > 0 {
		x.c.SetWriteDeadline(time.Now().Add(60 * time.Second))
		if _, err := x.c.Write(x.out.Bytes()); err != nil {
			panic(stop{})
		}
		x.out.Reset()
	}
}

// closeAfter sends what is left and ends the connection in order.
func (x *session) closeAfter() {
	x.flush()
	panic(stop{})
}

// msg queues a message and applies the fault; it returns false if the rest of
// the answer must be skipped.
func (x *session) msg(t byte, body []byte) bool {
	x.n++
	m := make([]byte, 0, len(body)+5)
	m = append(m, t)
	m = binary.BigEndian.AppendUint32(m, uint32(len(body)+4))
	m = append(m, body...)
	x.l.Sent = append(x.l.Sent, string(t))
	x.l.Lens = append(x.l.Lens, len(m))
	if x.n != x.p.FaultAt {
		x.out.Write(m)
		return true
	}
	x.l.Faulted = true
	switch x.p.FaultKind {
	case "close":
		x.closeAfter()
	case "reset":
		x.flush()
		if t, ok := x.raw.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		panic(stop{})
	case "cut":
		x.out.Write(m[:x.p.FaultCut])
		x.closeAfter()
	case "garbage":
		x.out.Write([]byte{0x7f, 0, 0, 0, 4})
		x.closeAfter()
	case "fatal":
		x.out.Write(errorMsg("FATAL", "57P01", "terminating connection due to administrator command"))
		x.closeAfter()
	case "null":
		b := append([]byte{t, 0, 0, 0, 0}, body[:2]...)
		for i, rest := 0, body[2:]; len(rest) > 0; i++ {
			n := int32(binary.BigEndian.Uint32(rest))
			v := rest[:4]
			rest = rest[4:]
			if n > 0 {
				v = append(append([]byte{}, v...), rest[:n]...)
				rest = rest[n:]
			}
			if i == x.p.FaultCut {
				v = []byte{255, 255, 255, 255}
			}
			b = append(b, v...)
		}
		binary.BigEndian.PutUint32(b[1:], uint32(len(b)-1))
		x.out.Write(b)
		return true
	case "error":
		x.out.Write(errorMsg("ERROR", x.p.FaultCode, "injected"))
	default:
		panic("fault " + x.p.FaultKind)
	}
	return false
}

func errorMsg(sev, code, text string) []byte {
	var b bytes.Buffer
	for _, f := range []struct {
		k byte
		v string
	}{{'S', sev}, {'V', sev}, {'C', code}, {'M', text}} {
		b.WriteByte(f.k)
		b.WriteString(f.v)
		b.WriteByte(0)
	}
	b.WriteByte(0)
	m := binary.BigEndian.AppendUint32([]byte{'E'}, uint32(b.Len()+4))
	return append(m, b.Bytes()...)
}

func (x *session) read(n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(x.c, b); err != nil {
		panic(stop{})
	}
	if !x.l.TLS {
		x.l.Plain.Write(b)
	}
	return b
}

func (x *session) startPacket() (uint32, []byte) {
	n := binary.BigEndian.Uint32(x.read(4))
	if n < 8 || n > 100000 {
		panic(stop{})
	}
	b := x.read(int(n) - 4)
	return binary.BigEndian.Uint32(b), b[4:]
}

func (x *session) run() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				panic(r)
			}
		}
	}()
	if x.p.Drop == "accept" {
		return
	}
	code, body := x.startPacket()
	if code == 80877103 {
		x.l.AskedTLS = true
		if x.p.Drop == "ssl" {
			return
		}
		if x.p.TLS == nil {
			x.c.Write([]byte{'N'})
			code, body = x.startPacket()
		} else {
			x.c.Write([]byte{'S'})
			if x.p.Break == "handshake" {
				x.c.Read(make([]byte, 64))
				return
			}
			t := tls.Server(x.c, x.p.TLS)
			if err := t.Handshake(); err != nil {
				x.l.HandshakeErr = err.Error()
				return
			}
			x.l.TLS = true
			x.c = t
			code, body = x.startPacket()
		}
	}
	if code != 196608 {
		return
	}
	params := map[string]string{}
	f := strings.Split(string(body), "\x00")
	for i := 0; i+1 < len(f) && f[i] != ""; i += 2 {
		params[f[i]] = f[i+1]
	}
	x.l.Startup, x.l.StartupPlain = params, !x.l.TLS
	fatal := func(code, text string) {
		x.out.Write(errorMsg("FATAL", code, text))
		x.closeAfter()
	}
	if x.p.Drop == "startup" {
		return
	}
	if x.p.NoPlain && !x.l.TLS {
		fatal("28000", "no pg_hba.conf entry for host, SSL off")
	}
	if x.p.NoTLS && x.l.TLS {
		fatal("28000", "no pg_hba.conf entry for host, SSL on")
	}
	if x.p.Auth != "" {
		b := []byte{0, 0, 0, 3}
		want := x.p.Password
		if x.p.Auth == "md5" {
			b = []byte{0, 0, 0, 5, 1, 2, 3, 4}
			h := func(s string) string { m := md5.Sum([]byte(s)); return hex.EncodeToString(m[:]) }
			want = "md5" + h(h(x.p.Password+params["user"])+"\x01\x02\x03\x04")
		}
		x.msg('R', b)
		x.flush()
		t, body := x.clientMsg()
		if t != 'p' {
			return
		}
		pw := strings.TrimRight(string(body), "\x00")
		x.l.Password = &pw
		if pw != want {
			fatal("28P01", "password authentication failed")
		}
	}
	if x.p.Reject != "" {
		fatal(x.p.Reject, "rejected")
	}
	if !x.msg('R', []byte{0, 0, 0, 0}) {
		x.closeAfter()
	}
	for _, kv := range [][2]string{{"server_version", "9.6.15"}, {"client_encoding", "UTF8"}, {"standard_conforming_strings", "on"}} {
		if !x.msg('S', []byte(kv[0]+"\x00"+kv[1]+"\x00")) {
			x.closeAfter()
		}
	}
	if !x.msg('K', []byte{0, 0, 0, 1, 0, 0, 0, 2}) {
		x.closeAfter()
	}
	if !x.msg('Z', []byte{'I'}) {
		x.closeAfter()
	}
	x.l.Ready = true
	x.flush()
	x.serve()
}

func (x *session) clientMsg() (byte, []byte) {
	t := x.read(1)[0]
	n := binary.BigEndian.Uint32(x.read(4))
	if n < 4 || n > 10000000 {
		panic(stop{})
	}
	return t, x.read(int(n) - 4)
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	return string(b[:i]), b[i+1:]
}

func u16(b []byte) (int, []byte) { return int(binary.BigEndian.Uint16(b)), b[2:] }

type portal struct {
	q      *Query
	sql    string
	params []any
	rf     []int
}

func (x *session) fail(err error) {
	e, ok := err.(SQLError)
	if !ok {
		e = SQLError{"XX000", err.Error(), false}
	}
	x.out.Write(errorMsg("ERROR", e.Code, e.Msg))
	x.skip = true
}

func (x *session) serve() {
	stmts := map[string]*Query{}
	sqls := map[string]string{}
	portals := map[string]*portal{}
	send := func(t byte, b []byte) bool {
		if !x.msg(t, b) {
			x.skip = true
			return false
		}
		return true
	}
	for {
		t, b := x.clientMsg()
		if x.skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			x.l.Terminated = true
			return
		case 'S':
			x.skip = false
			if !x.msg('Z', []byte{'I'}) {
				// an error in place of the answer to Sync is followed by another one
				x.msg('Z', []byte{'I'})
			}
			x.flush()
		case 'H':
			x.flush()
		case 'P':
			name, b := cstr(b)
			sql, _ := cstr(b)
			q, err := x.p.DB.Compile(sql)
			if err != nil {
				x.fail(err)
				break
			}
			stmts[name], sqls[name] = q, sql
			send('1', nil)
		case 'D':
			name, _ := cstr(b[1:])
			var q *Query
			if b[0] == 'S' {
				q = stmts[name]
			} else if p := portals[name]; p != nil {
				q = p.q
			}
			if q == nil {
				x.fail(SQLError{"26000", "no such statement", false})
				break
			}
			if b[0] == 'S' {
				d := binary.BigEndian.AppendUint16(nil, uint16(len(q.ParamTypes)))
				for _, t := range q.ParamTypes {
					d = binary.BigEndian.AppendUint32(d, uint32(t))
				}
				if !send('t', d) {
					break
				}
			}
			if q.Cols == nil {
				send('n', nil)
			} else {
				send('T', rowDesc(q.Cols, nil))
			}
		case 'B':
			pname, b := cstr(b)
			sname, b := cstr(b)
			q := stmts[sname]
			if q == nil {
				x.fail(SQLError{"26000", "no such statement", false})
				break
			}
			n, b := u16(b)
			var pf []int
			for i := 0; i < n; i++ {
				var f int
				f, b = u16(b)
				pf = append(pf, f)
			}
			n, b = u16(b)
			p := &portal{q: q, sql: sqls[sname]}
			for i := 0; i < n; i++ {
				l := int32(binary.BigEndian.Uint32(b))
				b = b[4:]
				if l < 0 {
					p.params = append(p.params, nil)
					continue
				}
				v := b[:l]
				b = b[l:]
				f := 0
				if len(pf) == 1 {
					f = pf[0]
				} else if i < len(pf) {
					f = pf[i]
				}
				var ty Type = TText
				if i < len(q.ParamTypes) {
					ty = q.ParamTypes[i]
				}
				p.params = append(p.params, decode(v, ty, f))
			}
			n, b = u16(b)
			for i := 0; i < n; i++ {
				var f int
				f, b = u16(b)
				p.rf = append(p.rf, f)
			}
			portals[pname] = p
			send('2', nil)
		case 'E':
			name, _ := cstr(b)
			p := portals[name]
			if p == nil {
				x.fail(SQLError{"34000", "no such portal", false})
				break
			}
			rows, err := p.q.Run(p.params)
			if err != nil {
				if e, ok := err.(SQLError); ok && e.Unsupported {
					x.p.DB.BadQuery = e.Msg + " in " + p.sql
				}
				x.fail(err)
				break
			}
			x.l.Queries = append(x.l.Queries, Query1{p.sql, p.params, rows, p.q.Cols})
			ok := true
			for _, r := range rows {
				if ok = send('D', dataRow(r, p.q.Cols, p.rf)); !ok {
					break
				}
			}
			if ok {
				send('C', append([]byte(tag(p.q, len(rows))), 0))
			}
		case 'C':
			send('3', nil)
		case 'Q':
			sql, more := cstr(b)
			if x.p.Simple != nil {
				r := Reply{Msgs: []Raw{ErrorReport("ERROR", "08P01", "invalid message format")}}
				if len(more) == 0 {
					r = x.p.Simple(sql)
				}
				for _, m := range r.Msgs {
					x.msg(m.T, m.B)
				}
				switch r.End {
				case "close":
					x.closeAfter()
				case "reset":
					x.flush()
					if t, ok := x.raw.(*net.TCPConn); ok {
						t.SetLinger(0)
					}
					panic(stop{})
				}
			} else {
				x.simple(sql)
			}
			x.skip = false
			if !x.msg('Z', []byte{'I'}) {
				x.msg('Z', []byte{'I'})
			}
			x.flush()
		default:
			panic(stop{})
		}
	}
}

func tag(q *Query, n int) string {
	if q.tag == "SELECT" {
		return fmt.Sprintf("SELECT %d", n)
	}
	return q.tag
}

func (x *session) simple(sql string) {
	q, err := x.p.DB.Compile(sql)
	if err != nil {
		x.fail(err)
		return
	}
	rows, err := q.Run(nil)
	if err != nil {
		x.fail(err)
		return
	}
	x.l.Queries = append(x.l.Queries, Query1{sql, nil, rows, q.Cols})
	if q.Cols != nil {
		if !x.msg('T', rowDesc(q.Cols, nil)) {
			return
		}
	}
	for _, r := range rows {
		if !x.msg('D', dataRow(r, q.Cols, nil)) {
			return
		}
	}
	x.msg('C', append([]byte(tag(q, len(rows))), 0))
}

func rowDesc(cols []Col, rf []int) []byte {
	d := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
	for i, c := range cols {
		d = append(d, c.Name...)
		d = append(d, 0)
		d = binary.BigEndian.AppendUint32(d, 0)
		d = binary.BigEndian.AppendUint16(d, 0)
		d = binary.BigEndian.AppendUint32(d, uint32(c.T))
		size := int16(-1)
		switch c.T {
		case TBool, TChar:
			size = 1
		case TInt4, TOID:
			size = 4
		case TInt8:
			size = 8
		case TName:
			size = 64
		}
		d = binary.BigEndian.AppendUint16(d, uint16(size))
		d = binary.BigEndian.AppendUint32(d, 0xffffffff)
		d = binary.BigEndian.AppendUint16(d, uint16(format(rf, i)))
	}
	return d
}

func format(rf []int, i int) int {
	if len(rf) == 1 {
		return rf[0]
	}
	if i < len(rf) {
		return rf[i]
	}
	return 0
}

func dataRow(r []any, cols []Col, rf []int) []byte {
	d := binary.BigEndian.AppendUint16(nil, uint16(len(r)))
	for i, v := range r {
		if v == nil {
			d = binary.BigEndian.AppendUint32(d, 0xffffffff)
			continue
		}
		b := encode(v, cols[i].T, format(rf, i))
		d = binary.BigEndian.AppendUint32(d, uint32(len(b)))
		d = append(d, b...)
	}
	return d
}

func encode(v any, t Type, f int) []byte {
	if f == 1 {
		switch t {
		case TBool:
			if v.(bool) {
				return []byte{1}
			}
			return []byte{0}
		case TInt8:
			return binary.BigEndian.AppendUint64(nil, uint64(v.(int64)))
		case TInt4, TOID:
			return binary.BigEndian.AppendUint32(nil, uint32(v.(int64)))
		case TTextArr, TIntArr:
			l := elements(v)
			if len(l) == 0 {
				return make([]byte, 12) // no dimensions; the element type does not matter
			}
			et := TText
			if t == TIntArr {
				et = TInt4
			}
			b := binary.BigEndian.AppendUint32(nil, 1)
			b = binary.BigEndian.AppendUint32(b, 0)
			b = binary.BigEndian.AppendUint32(b, uint32(et))
			b = binary.BigEndian.AppendUint32(b, uint32(len(l)))
			b = binary.BigEndian.AppendUint32(b, 1)
			for _, x := range l {
				e := encode(x, et, 1)
				b = binary.BigEndian.AppendUint32(b, uint32(len(e)))
				b = append(b, e...)
			}
			return b
		}
		return []byte(v.(string))
	}
	switch x := v.(type) {
	case bool:
		if x {
			return []byte("t")
		}
		return []byte("f")
	case int64:
		return strconv.AppendInt(nil, x, 10)
	case []string:
		var out []string
		for _, s := range x {
			out = append(out, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s)+`"`)
		}
		return []byte("{" + strings.Join(out, ",") + "}")
	case []int64:
		return []byte(strings.NewReplacer("[", "{", "]", "}", " ", ",").Replace(fmt.Sprint(x)))
	}
	return []byte(v.(string))
}

func decode(b []byte, t Type, f int) any {
	if f == 1 {
		switch t {
		case TBool:
			return b[0] != 0
		case TInt8:
			return int64(binary.BigEndian.Uint64(b))
		case TInt4:
			return int64(int32(binary.BigEndian.Uint32(b)))
		case TOID:
			return int64(binary.BigEndian.Uint32(b))
		}
		return string(b)
	}
	switch t {
	case TBool:
		return string(b) == "t" || string(b) == "true"
	case TInt8, TInt4, TOID:
		n, _ := strconv.ParseInt(string(b), 10, 64)
		return n
	}
	return string(b)
}
