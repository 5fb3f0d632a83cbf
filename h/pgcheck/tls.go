//go:build go1.22

package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// ---- C14: what is sent over which connection

// The certificates a server can have. ca 1 is trusted by the system.
type certSpec struct {
	name    string
	ca      int
	dns     []string
	ip      []string
	expired bool
}

var certSpecs = []certSpec{
	{"no TLS", 0, nil, nil, false},
	{"a certificate for both names", 1, []string{"localhost"}, []string{"127.0.0.1"}, false},
	{"a certificate for localhost", 1, []string{"localhost"}, nil, false},
	{"a certificate for 127.0.0.1", 1, nil, []string{"127.0.0.1"}, false},
	{"a certificate for another host", 1, []string{"db.example"}, []string{"127.0.0.9"}, false},
	{"a certificate of another authority", 2, []string{"localhost"}, []string{"127.0.0.1"}, false},
	{"an expired certificate", 1, []string{"localhost"}, []string{"127.0.0.1"}, true},
}

func (c certSpec) covers(host string) bool {
	for _, n := range append(append([]string{}, c.dns...), c.ip...) {
		if n == host {
			return true
		}
	}
	return false
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "pgcheck:", err)
		os.Exit(3)
	}
}

func caFile(ca int) string { return filepath.Join(tmp, fmt.Sprintf("ca%d.pem", ca)) }
func srvFile(i int) string { return filepath.Join(tmp, fmt.Sprintf("srv%d.pem", i)) }
func block(t string, b []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: t, Bytes: b})
}

// setupTLS makes the certificates (once: workers find them) and makes the
// first authority, and only it, the one that the system trusts.
func setupTLS() {
	if !*worker {
		now := time.Now()
		var keys [3]*ecdsa.PrivateKey
		var cas [3]*x509.Certificate
		for ca := 1; ca <= 2; ca++ {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			t := &x509.Certificate{SerialNumber: big.NewInt(int64(ca)), Subject: pkix.Name{CommonName: fmt.Sprintf("authority %d", ca)},
				NotBefore: now.Add(-48 * time.Hour), NotAfter: now.Add(48 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
			der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
			must(err)
			cas[ca], err = x509.ParseCertificate(der)
			must(err)
			keys[ca] = k
			must(os.WriteFile(caFile(ca), block("CERTIFICATE", der), 0o600))
		}
		for i, c := range certSpecs {
			if c.ca == 0 {
				continue
			}
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			t := &x509.Certificate{SerialNumber: big.NewInt(int64(10 + i)), Subject: pkix.Name{CommonName: "server"}, DNSNames: c.dns,
				NotBefore: now.Add(-47 * time.Hour), NotAfter: now.Add(47 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
			for _, a := range c.ip {
				t.IPAddresses = append(t.IPAddresses, net.ParseIP(a))
			}
			if c.expired {
				t.NotAfter = now.Add(-24 * time.Hour)
			}
			der, err := x509.CreateCertificate(rand.Reader, t, cas[c.ca], &k.PublicKey, keys[c.ca])
			must(err)
			kd, err := x509.MarshalECPrivateKey(k)
			must(err)
			must(os.WriteFile(srvFile(i), append(block("CERTIFICATE", der), block("EC PRIVATE KEY", kd)...), 0o600))
		}
		must(os.MkdirAll(filepath.Join(tmp, "nocerts"), 0o700))
	}
	os.Setenv("SSL_CERT_FILE", caFile(1))
	os.Setenv("SSL_CERT_DIR", filepath.Join(tmp, "nocerts"))
}

// A tlsWorld is the listener of this process; what it does is changed
// between connections.
type tlsWorld struct {
	mu    sync.Mutex
	p     pgsrv.Plan
	srv   *pgsrv.Server
	certs []*tls.Config
}

var theTLSWorld *tlsWorld

func tlsServer() *tlsWorld {
	if theTLSWorld != nil {
		return theTLSWorld
	}
	w := &tlsWorld{}
	for i, c := range certSpecs {
		if c.ca == 0 {
			w.certs = append(w.certs, nil)
			continue
		}
		p, err := tls.LoadX509KeyPair(srvFile(i), srvFile(i))
		must(err)
		w.certs = append(w.certs, &tls.Config{Certificates: []tls.Certificate{p}})
	}
	w.srv = pgsrv.Serve(listen(), func(int) pgsrv.Plan {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.p
	})
	theTLSWorld = w
	return w
}

const secret, tlsUser, tlsDB = "s3cret-passw0rd", "somebody-known", "some-database"

// A tlsCase is a client's configuration; it meets every server.
type tlsCase struct {
	opt, env         string // modes
	pw               string // "", "option", "environment"
	optHost, envHost string
	root             int // PGSSLROOTCERT
	retries          int
}

func (c tlsCase) String() string {
	q := func(s string) string {
		if s == "" {
			return "-"
		}
		return s
	}
	s := fmt.Sprintf("mode option %s variable %s, password %s, host option %s variable %s", q(c.opt), q(c.env), q(c.pw), q(c.optHost), q(c.envHost))
	if c.root > 0 {
		s += fmt.Sprintf(", authority file %d", c.root)
	}
	if c.retries > 0 {
		s += fmt.Sprintf(", %d retry", c.retries)
	}
	return s
}

var tlsModes = []string{"disable", "allow", "prefer", "require", "verify-ca", "verify-full"}

func knownMode(m string) bool {
	for _, k := range tlsModes {
		if m == k {
			return true
		}
	}
	return false
}

func runTLS(r *result, c tlsCase) {
	w := tlsServer()
	set := func(k, v string) {
		if v == "" {
			os.Unsetenv(k)
		} else {
			os.Setenv(k, v)
		}
	}
	pw := map[string]string{"": "", "option": "", "environment": secret}[c.pw]
	set("PGPASSWORD", pw)
	set("PGSSLMODE", c.env)
	set("PGHOST", c.envHost)
	root := ""
	if c.root > 0 {
		root = caFile(c.root)
	}
	set("PGSSLROOTCERT", root)
	defer func() {
		for _, k := range []string{"PGPASSWORD", "PGSSLMODE", "PGHOST", "PGSSLROOTCERT"} {
			os.Unsetenv(k)
		}
	}()
	o := pg.Options{Log: zap.NewNop().Sugar(), Host: c.optHost, Port: w.srv.Port(), SSLMode: c.opt, Username: tlsUser, Database: tlsDB, ConnectRetries: c.retries}
	if c.pw == "option" {
		o.Password = secret
	}
	host := c.optHost
	if host == "" {
		host = c.envHost
	}
	// the mode that counts, and whether the client may refuse it at once
	mode, unknown, either := c.opt, false, false
	if mode == "" && c.pw != "" {
		mode = "verify-full"
	}
	if mode == "" {
		mode = c.env
	}
	if mode == "" {
		mode = "prefer"
	}
	unknown = !knownMode(mode)
	if !unknown && c.env != "" && !knownMode(c.env) {
		either = true // the variable is wrong but doesn't count
	}
	if c.opt == "verify-ca" {
		either = true // not among the program's modes
	}
	strict := mode == "require" || mode == "verify-ca" || mode == "verify-full"

	for ci, cert := range certSpecs {
		for _, limit := range []string{"", "no plain sessions", "no TLS sessions"} {
			for _, brk := range []string{"", "closes when asked for TLS", "closes in the handshake"} {
				if cert.ca == 0 && (limit != "" || brk == "closes in the handshake") {
					if !(limit == "no plain sessions" && brk == "") {
						continue
					}
				}
				for _, auth := range []string{"", "cleartext", "md5"} {
					p := pgsrv.Plan{TLS: w.certs[ci], NoPlain: limit == "no plain sessions", NoTLS: limit == "no TLS sessions", Auth: auth, Password: secret, DB: emptyCat}
					if brk == "closes when asked for TLS" {
						p.Drop = "ssl"
					} else if brk != "" {
						p.Break = "handshake"
					}
					w.mu.Lock()
					w.p = p
					w.mu.Unlock()
					seen := len(w.srv.Logs())
					var conn *pg.Conn
					var err error
					oo := o
					problem := guarded(func() { conn, err = pg.New(&oo) })
					r.count("states", 1)
					r.count("evaluations", 1)
					r.count("traces_validated_against_impl", 1)
					at := fmt.Sprintf("%s; the server has %s, %s, %s, asks for %s", c, cert.name, def(limit, "any session"), def(brk, "no fault"), def(auth, "no password"))
					bad := func(f string, a ...any) {
						m := fmt.Sprintf(f, a...)
						r.add(at+": "+m, "%s: %s (error: %v)", at, m, err)
					}
					if problem != "" {
						bad("%s", problem)
						continue
					}
					// sessions that are still open now, before closing ours
					var logs []*pgsrv.Log
					for end := time.Now().Add(10 * time.Second); ; time.Sleep(100 * time.Microsecond) {
						logs = w.srv.Logs()[seen:]
						open := 0
						for _, l := range logs {
							if !l.Closed(0) {
								open++
							}
						}
						if err == nil && open <= 1 || open == 0 {
							break
						}
						if time.Now().After(end) {
							bad("%d connections stay open", open)
							break
						}
					}
					var kept *pgsrv.Log
					for _, l := range logs {
						if !l.Closed(0) {
							kept = l
						}
					}
					if err == nil {
						guarded(func() { conn.Close() })
					}
					for _, l := range logs {
						l.Closed(10 * time.Second)
						r.count("transitions", len(l.Sent)+1)
					}
					if err == nil && kept == nil {
						bad("it succeeds without a connection")
						continue
					}

					// what must be so whatever the outcome
					if unknown {
						if err == nil {
							bad("the mode is accepted")
						}
						if len(logs) > 0 {
							bad("a connection is made")
						}
						continue
					}
					authOK := auth == "" || c.pw != ""
					trust := cert.ca == 1
					if c.root > 0 {
						trust = cert.ca == c.root
					}
					trust = trust && !cert.expired
					full := trust && cert.covers(host)
					plainOK := !p.NoPlain && authOK
					tlsOK := cert.ca > 0 && brk == "" && !p.NoTLS && authOK
					for _, l := range logs {
						switch {
						case mode == "disable" && (l.AskedTLS || l.TLS):
							bad("TLS is asked for")
						case strict && (l.StartupPlain || l.Password != nil && !l.TLS):
							bad("a session is started without TLS")
						case strict && !bytes.Equal(l.Plain.Bytes(), []byte{0, 0, 0, 8, 4, 210, 22, 47}):
							bad("%q is sent without TLS", l.Plain.Bytes())
						case strict && leaks(l.Raw()):
							bad("data can be read on the wire")
						case mode == "verify-full" && !full && l.Startup != nil:
							bad("a session is started although the certificate does not match")
						case mode == "verify-ca" && !trust && l.Startup != nil:
							bad("a session is started although the certificate is not trusted")
						case l.TLS && leaks(l.Raw()):
							bad("data can be read on the wire of a TLS session")
						}
					}
					if err != nil && either {
						continue
					}
					if len(logs) == 0 {
						bad("no connection is made")
						continue
					}
					must, may := false, false // succeed
					keepTLS, keepPlain := true, true
					switch mode {
					case "disable":
						must, may = plainOK, plainOK
						keepTLS = false
					case "allow":
						must, may = plainOK || tlsOK, plainOK || tlsOK
						keepTLS, keepPlain = !plainOK, plainOK
						if logs[0].AskedTLS {
							bad("TLS is asked for first")
						}
					case "prefer":
						may = plainOK || tlsOK
						must = may && (brk == "" || tlsOK)
						keepTLS, keepPlain = tlsOK, !tlsOK
						if !logs[0].AskedTLS {
							bad("TLS is not asked for first")
						}
					case "require":
						must, may = tlsOK, tlsOK
						keepPlain = false
					case "verify-ca":
						must, may = tlsOK && full, tlsOK && trust
						keepPlain = false
					case "verify-full":
						must, may = tlsOK && full, tlsOK && full
						keepPlain = false
					}
					if err != nil && must {
						bad("it fails")
					}
					if err == nil {
						switch {
						case !may:
							bad("it succeeds")
						case kept.TLS && !keepTLS:
							bad("the session uses TLS")
						case !kept.TLS && !keepPlain:
							bad("the session does not use TLS")
						}
					}
				}
			}
		}
	}
}

var emptyCat = newCat("public")

func leaks(raw []byte) bool {
	for _, s := range []string{secret, tlsUser, tlsDB} {
		if bytes.Contains(raw, []byte(s)) {
			return true
		}
	}
	return false
}

func def(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func casesC14() (out []kase) {
	type m struct{ opt, env string }
	var ms []m
	for _, env := range append([]string{"", "VERIFY-FULL", "bogus", " require"}, tlsModes...) {
		ms = append(ms, m{"", env})
	}
	for _, opt := range append([]string{"VERIFY-FULL", "bogus", "require "}, tlsModes...) {
		envs := []string{"", "disable", "verify-full", "bogus"}
		if thorough {
			envs = append([]string{"", "bogus"}, tlsModes...)
		}
		for _, env := range envs {
			ms = append(ms, m{opt, env})
		}
	}
	hosts := [][2]string{{"localhost", ""}, {"127.0.0.1", ""}, {"", "localhost"}, {"127.0.0.1", "localhost"}, {"localhost", "127.0.0.1"}}
	for _, x := range ms {
		for _, pw := range []string{"", "option", "environment"} {
			for hi, h := range hosts {
				for root := 0; root <= 2; root++ {
					// the driver panics on allow with an authority file, ignores the
					// file with disable, and does not verify with require
					verify := strings.HasPrefix(x.opt, "verify-") || x.opt == "" && (pw != "" || strings.HasPrefix(x.env, "verify-"))
					if root > 0 && (!verify || x.env == "allow" || x.env == "disable" || x.env != "" && !knownMode(x.env)) {
						continue
					}
					for retries := 0; retries <= 1; retries++ {
						if retries > 0 && (hi > 0 || root > 0) && !thorough {
							continue
						}
						c := tlsCase{x.opt, x.env, pw, h[0], h[1], root, retries}
						out = append(out, kase{c.String(), func(_ string, r *result) { runTLS(r, c) }})
					}
				}
			}
		}
	}
	return
}
