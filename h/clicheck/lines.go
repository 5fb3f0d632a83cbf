//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/sjansen/pgutil/internal/zzverif/cases"
)

// spellings of an option with a value.
func spell(opt, short string, vals ...string) (out []item) {
	for _, v := range vals {
		out = append(out, item{opt, []string{"--" + opt + "=" + v}, v})
		if !strings.HasPrefix(v, "-") { // the parser takes it for a flag
			out = append(out, item{opt, []string{"--" + opt, v}, v})
			if short != "" {
				out = append(out, item{opt, []string{"-" + short, v}, v}, item{opt, []string{"-" + short + v}, v})
			}
		}
	}
	return
}

func toggle(opt string) []item {
	return []item{{opt, []string{"--" + opt}, "true"}, {opt, []string{"--no-" + opt}, "false"}}
}

func join(l ...[]item) (out []item) {
	for _, x := range l {
		out = append(out, x...)
	}
	return
}

var sslmodes = []string{"disable", "allow", "prefer", "require", "verify-full"}

func connItems() []item {
	return join(
		spell("host", "h", "127.0.0.1", "127.0.0.2", "SOCK"),
		spell("port", "p", "P1", "P2"),
		spell("dbname", "d", "db1", "d b=é", "-x"),
		spell("username", "U", "u1", "ü \"'", "--host"),
		spell("sslmode", "", sslmodes...))
}

func inspectItems() []item {
	return join(connItems(), spell("output", "o", "out1", "sub/out 2", "-"), toggle("sort-columns"), toggle("sort-check-constraints"), toggle("sort-indexes"))
}

// A verb is a command with its words and options.
type verb struct {
	cmd   string
	words []string
	items []item
	arg   bool
}

func verbs() []verb {
	dot := join(spell("output", "o", "out1", "sub/out 2", "-"), []item{{"auto", []string{"-O"}, "true"}}, spell("splines", "", "curved", "line", "ortho"))
	eval := join(spell("color", "c", "auto", "true", "false"), spell("output", "o", "out1", "sub/out 2", "-"))
	return []verb{
		{"ping", []string{"ping"}, connItems(), false},
		{"inspect", []string{"inspect"}, inspectItems(), false},
		{"list", []string{"runbook", "list"}, nil, true},
		{"list", []string{"runbook", "ls"}, nil, true},
		{"dot", []string{"runbook", "dot"}, dot, true},
		{"eval", []string{"runbook", "eval"}, eval, true},
		{"run", []string{"runbook", "run"}, nil, true},
		{"run", []string{"runbook"}, nil, true},
		{"version", []string{"version"}, join(toggle("long"), []item{{"long", []string{"-l"}, "true"}}), false},
	}
}

func globals() (out [][]item) {
	g := func(l ...item) { out = append(out, l) }
	v, vv, vl := item{"v", []string{"-v"}, "1"}, item{"v", []string{"-vv"}, "2"}, item{"v", []string{"--verbose"}, "1"}
	q, qq, ql := item{"q", []string{"-q"}, "1"}, item{"q", []string{"-qq"}, "2"}, item{"q", []string{"--quiet"}, "1"}
	qv := item{"qv", []string{"-qv"}, ""}
	vqv := item{"vqv", []string{"-vqv"}, ""}
	d, de := item{"debug", []string{"--debug", "debug.log"}, ""}, item{"debug", []string{"--debug=debug.log"}, ""}
	singles := []item{v, vv, vl, q, qq, ql, qv, vqv, d, de}
	for i, a := range singles {
		g(a)
		for j, b := range singles {
			if a.opt != "debug" || b.opt != "debug" {
				g(a, b)
			}
			_ = i
			_ = j
		}
	}
	g(v, v, v)
	g(v, vl, v, vl)
	g(v, q, v, q, v)
	return
}

func apply(l *line, it item) {
	switch it.opt {
	case "":
		l.file = it.val
	case "v", "q", "qv", "vqv":
		l.v += strings.Count(it.toks[0], "v")
		l.q += strings.Count(it.toks[0], "q")
		if it.toks[0] == "--verbose" {
			l.v, l.q = l.v-0, l.q
		} else if it.toks[0] == "--quiet" {
			l.v, l.q = l.v-0, l.q
		}
	case "debug":
		l.debug = true
	default:
		if l.opts == nil {
			l.opts = map[string]string{}
		}
		l.opts[it.opt] = it.val
	}
}

// build makes a line: items[:pre] are between the words of the command or
// before them (globals only), at the given positions.
func build(vb verb, before [][]item, after []item) (l line) {
	l.cmd = vb.cmd
	for i := 0; i <= len(vb.words); i++ {
		if i < len(before) {
			for _, it := range before[i] {
				l.toks = append(l.toks, it.toks...)
				apply(&l, it)
			}
		}
		if i < len(vb.words) {
			l.toks = append(l.toks, vb.words[i])
		}
	}
	for _, it := range after {
		l.toks = append(l.toks, it.toks...)
		apply(&l, it)
	}
	return
}

func argItems(f string) (out []item) {
	if strings.HasPrefix(f, "-") {
		return []item{{"", []string{"--", f}, f}}
	}
	return []item{{"", []string{f}, f}, {"", []string{"--", f}, f}}
}

// orders puts an item in every position of a list.
func orders(l []item, it item) (out [][]item) {
	if it.toks[0] == "--" { // everything after it is an argument
		return [][]item{append(append([]item{}, l...), it)}
	}
	for i := 0; i <= len(l); i++ {
		x := append([]item{}, l[:i]...)
		x = append(x, it)
		out = append(out, append(x, l[i:]...))
	}
	return
}

// subsets of at most n items of different options, in every order.
func sequences(items []item, n int) (out [][]item) {
	var walk func(cur []item)
	walk = func(cur []item) {
		out = append(out, append([]item{}, cur...))
		if len(cur) == n {
			return
		}
	next:
		for _, it := range items {
			for _, c := range cur {
				if c.opt == it.opt {
					continue next
				}
			}
			walk(append(cur, it))
		}
	}
	walk(nil)
	return
}

func valid(vb verb, n int) (out []line) {
	for _, s := range sequences(vb.items, n) {
		if !vb.arg {
			out = append(out, build(vb, nil, s))
			continue
		}
		for _, f := range files {
			for _, a := range argItems(f) {
				for _, o := range orders(s, a) {
					out = append(out, build(vb, nil, o))
				}
			}
		}
	}
	return
}

// withGlobals puts global flags in every position of a few lines.
func withGlobals(vb verb) (out []line) {
	for _, g := range globals() {
		base := []item{}
		if vb.cmd == "ping" || vb.cmd == "inspect" {
			base = append(base, spell("host", "h", "127.0.0.1")[2], spell("port", "p", "P1")[0])
		} else if len(vb.items) > 0 {
			base = append(base, vb.items[len(vb.items)-2])
		}
		if vb.arg {
			base = append(base, argItems(files[0])[0])
		}
		var walk func(i int, before [][]item, after []item)
		walk = func(i int, before [][]item, after []item) {
			if i == len(g) {
				out = append(out, build(vb, before, after))
				return
			}
			for w := range vb.words {
				b := make([][]item, len(vb.words))
				copy(b, before)
				b[w] = append(append([]item{}, b[w]...), g[i])
				walk(i+1, b, after)
			}
			for _, o := range orders(after, g[i]) {
				walk(i+1, before, o)
			}
		}
		if len(g) <= 2 {
			walk(0, make([][]item, len(vb.words)), base)
		} else {
			out = append(out, build(vb, [][]item{g}, base), build(vb, nil, append(append([]item{}, g...), base...)), build(vb, nil, append(append([]item{}, base...), g...)))
		}
	}
	return
}

// invalid lines.
func invalid() (out []line) {
	add := func(why string, toks ...string) { out = append(out, line{toks: toks, explain: why}) }
	for _, c := range []string{"pong", "PING", "pin", "runbook-list", "versions", "", "inspect ", "help2"} {
		add("unknown command", c)
		add("unknown command", "-v", c)
	}
	for _, c := range []string{"ping", "inspect"} {
		add("surplus argument", c, "x")
		add("surplus argument", c, "-h", "127.0.0.1", "x")
		add("surplus argument", c, c)
		for _, p := range []string{"70000", "65536", "-1", "abc", "1.5", "1e3", "99999999999999999999", " 1", "P1x"} {
			add("invalid port", c, "--port="+p)
			if !strings.HasPrefix(p, "-") {
				add("invalid port", c, "-p", p)
				add("invalid port", c, "-h", "127.0.0.1", "-p"+p)
				add("invalid port", c, "--port", p, "-h", "127.0.0.1")
			}
		}
		for _, s := range []string{"nope", "DISABLE", "verify", "requir", "require ", "verify-ca", "no"} {
			add("invalid sslmode", c, "--sslmode="+s)
			add("invalid sslmode", c, "-h", "127.0.0.1", "--sslmode", s)
		}
		for _, o := range []string{"--host", "-h", "--port", "-p", "--dbname", "-d", "--username", "-U", "--sslmode"} {
			add("missing value", c, o)
			add("missing value", c, "-v", o)
		}
		for _, o := range []string{"--hos", "--hosts", "--password", "--passwd=x", "-W", "-x", "--Host=1", "-P1", "--splines=line", "--color=true", "-c", "-O", "--long", "-l", "---host"} {
			add("unknown flag", c, o)
			add("unknown flag", c, "-h", "127.0.0.1", o)
		}
	}
	for _, o := range []string{"--output=x", "-o", "--sort-columns", "--sort-indexes", "--sort-check-constraints", "--no-sort-columns"} {
		add("flag of another command", "ping", o)
	}
	add("missing value", "inspect", "--output")
	add("missing value", "inspect", "-o")
	add("value for a switch", "inspect", "--sort-columns=maybe")
	add("unknown flag", "inspect", "--sort")
	add("unknown flag", "inspect", "--sort-checks")
	for _, c := range [][]string{{"runbook", "list"}, {"runbook", "ls"}, {"runbook", "dot"}, {"runbook", "eval"}, {"runbook", "run"}, {"runbook"}} {
		w := func(x ...string) []string { return append(append([]string{}, c...), x...) }
		add("missing argument", w()...)
		add("missing argument", w("-v")...)
		add("missing argument", w("--")...)
		add("surplus argument", w("a.jsonnet", "noext")...)
		add("surplus argument", w("a.jsonnet", "a.jsonnet")...)
		add("surplus argument", w("--", "a.jsonnet", "-v")...)
		add("no such file", w("missing.jsonnet")...)
		add("no such file", w("A.jsonnet")...)
		add("no such file", w("a.jsonnet/x")...)
		add("a directory", w("sub")...)
		add("a directory", w(".")...)
		for _, o := range []string{"--host=x", "-h", "--task=x", "-t", "--dry-run", "-n", "-i", "--long", "--sslmode=disable"} {
			add("unknown flag", w(o, "a.jsonnet")...)
			add("unknown flag", w("a.jsonnet", o)...)
		}
		if last := c[len(c)-1]; last != "dot" {
			add("flag of another command", w("a.jsonnet", "--splines=line")...)
			add("flag of another command", w("-O", "a.jsonnet")...)
		}
		if last := c[len(c)-1]; last != "eval" {
			add("flag of another command", w("a.jsonnet", "--color=true")...)
			add("flag of another command", w("-ctrue", "a.jsonnet")...)
		}
		if last := c[len(c)-1]; last != "eval" && last != "dot" {
			add("flag of another command", w("a.jsonnet", "--output=out1")...)
			add("flag of another command", w("-o", "out1", "a.jsonnet")...)
		} else {
			add("missing value", w("a.jsonnet", "--output")...)
			add("missing value", w("a.jsonnet", "-o")...)
		}
	}
	for _, s := range []string{"nope", "LINE", "lin", "true", "polyline"} {
		add("invalid splines", "runbook", "dot", "--splines="+s, "a.jsonnet")
		add("invalid splines", "runbook", "dot", "a.jsonnet", "--splines", s)
	}
	for _, s := range []string{"nope", "TRUE", "yes", "1", "always"} {
		add("invalid color", "runbook", "eval", "--color="+s, "a.jsonnet")
		add("invalid color", "runbook", "eval", "a.jsonnet", "-c"+s)
	}
	add("missing value", "runbook", "dot", "a.jsonnet", "--splines")
	add("missing value", "runbook", "eval", "a.jsonnet", "--color")
	add("missing value", "runbook", "eval", "a.jsonnet", "-c")
	for _, o := range []string{"x", "--host=x", "-o", "--longer", "-L", "--long=maybe"} {
		add("invalid", "version", o)
		add("invalid", "version", "--long", o)
	}
	for _, c := range []string{"ping", "inspect", "version"} {
		add("missing value", c, "--debug")
		add("no such directory", "--debug=none/debug.log", c)
		add("a directory", c, "--debug", "sub")
	}
	return
}

// long lines: long values, and flags given many times.
func long() (out []line) {
	lengths := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 8000}
	for _, c := range verbs()[:2] {
		base := []item{spell("host", "h", "127.0.0.1")[0], spell("port", "p", "P1")[0]}
		for _, n := range lengths {
			x := strings.Repeat("l", n)
			for i, u := range spell("username", "U", x+"u", "u") {
				for j, d := range spell("dbname", "d", x+"d", "d") {
					if i == j || i < 4 && j < 4 && i+j == 4 {
						out = append(out, build(c, nil, append(base[:2:2], u, d)))
					}
				}
			}
		}
	}
	v, q := item{"v", []string{"-v"}, "1"}, item{"q", []string{"-q"}, "1"}
	for _, vb := range verbs() {
		var base []item
		if vb.cmd == "ping" || vb.cmd == "inspect" {
			base = append(base, spell("host", "h", "127.0.0.1")[2], spell("port", "p", "P1")[0])
		}
		if vb.arg {
			base = append(base, argItems(files[0])[0])
		}
		for _, n := range []int{4, 5, 8, 16, 100, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 1000} {
			for more := 0; more <= 3; more++ {
				for _, pair := range [][2]item{{v, q}, {q, v}} {
					var l []item
					for i := 0; i < n; i++ {
						l = append(l, pair[0])
					}
					for i := 0; i < n-more; i++ {
						l = append(l, pair[1])
					}
					out = append(out, build(vb, nil, append(l, base...)))
					if more == 0 {
						out = append(out, build(vb, nil, append(l[:n:n], base...)))
					}
				}
			}
		}
	}
	return
}

func casesC28() (out []cases.Case) {
	batch := func(name string, env int, ls []line) {
		const size = 60
		for i := 0; i < len(ls); i += size {
			part := ls[i:min(i+size, len(ls))]
			out = append(out, cases.Case{Name: fmt.Sprintf("%s, variables %d, from %d", name, env, i), Run: func(r *result) {
				w, err := getWorld()
				if w == nil {
					r.Broken = err
					return
				}
				for _, l := range part {
					w.check(r, environments2[env], l)
				}
			}})
		}
	}
	for _, vb := range verbs() {
		name := strings.Join(vb.words, " ")
		n := 2
		if cases.Thorough {
			n = 3
		}
		for env := range environments2 {
			if vb.arg && env > 0 {
				continue
			}
			k := n
			if vb.cmd == "inspect" && env > 0 {
				k = n - 1
			}
			batch(name, env, valid(vb, k))
		}
		batch(name+" with global flags", 2, withGlobals(vb))
		if vb.cmd == "ping" || vb.cmd == "inspect" {
			// every option once, in every order
			one := []item{spell("host", "h", "127.0.0.2")[2], spell("port", "p", "P1")[3], spell("dbname", "d", "db1")[1], spell("username", "U", "u1")[0], spell("sslmode", "", "require")[1]}
			if vb.cmd == "inspect" {
				one = append(one[2:4:4], toggle("sort-columns")[0], spell("output", "o", "out1")[2], toggle("sort-check-constraints")[0])
			}
			var all []line
			for _, s := range sequences(one, len(one)) {
				all = append(all, build(vb, nil, s))
			}
			batch(name+" with many options", 2, all)
		}
	}
	batch("long", 2, long())
	batch("invalid", 0, invalid())
	return
}
