//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// A reader of the DOT language (graphviz.org/doc/info/lang.html).

type dotTok struct {
	kind byte // 'i' identifier, 'q' quoted, 'h' HTML, or the punctuation; '>' is ->, '=' is --
	text string
}

type dotGraph struct {
	name     string
	attrs    map[string]string // of the graph
	clusters []*dotCluster
	nodes    map[string]*dotNode
	order    []string
	edges    [][2]string
}

type dotCluster struct {
	id    string
	attrs map[string]string
	nodes []string
}

type dotNode struct {
	id       string
	stmts    int // statements that declare it
	clusters []string
	attrs    map[string]string
}

func dotLex(s string) (out []dotTok, err error) {
	letter := func(c rune) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	digit := func(c rune) bool { return c >= '0' && c <= '9' }
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == utf8.RuneError && n == 1:
			return nil, fmt.Errorf("not UTF-8 at %d", i)
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//") || c == '#' && (i == 0 || s[i-1] == '\n'):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("a comment does not end")
			}
			i += j + 4
		case strings.HasPrefix(s[i:], "->"):
			out = append(out, dotTok{'>', "->"})
			i += 2
		case strings.HasPrefix(s[i:], "--"):
			out = append(out, dotTok{'-', "--"})
			i += 2
		case strings.ContainsRune("{}[];,=:+", c):
			out = append(out, dotTok{byte(c), string(c)})
			i++
		case c == '"':
			var b strings.Builder
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("a string does not end")
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '"' || s[i+1] == '\\') {
					// \" is the quote; \\ stays, but does not escape what follows
					if s[i+1] == '\\' {
						b.WriteByte('\\')
					}
					b.WriteByte(s[i+1])
					i += 2
					continue
				}
				if s[i] == '\\' && i+1 < len(s) && s[i+1] == '\n' {
					i += 2
					continue
				}
				b.WriteByte(s[i])
				i++
			}
			out = append(out, dotTok{'q', b.String()})
		case c == '<':
			depth, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '<' {
					depth++
				}
				if s[j] == '>' {
					if depth--; depth == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return nil, fmt.Errorf("an HTML string does not end")
			}
			out = append(out, dotTok{'h', s[i : j+1]})
			i = j + 1
		case letter(c):
			j := i
			for j < len(s) {
				c, n := utf8.DecodeRuneInString(s[j:])
				if !letter(c) && !digit(c) {
					break
				}
				j += n
			}
			out = append(out, dotTok{'i', s[i:j]})
			i = j
		case digit(c) || c == '.' || c == '-':
			j := i
			if c == '-' {
				j++
			}
			digits, dots := 0, 0
			for j < len(s) && (digit(rune(s[j])) || s[j] == '.') {
				if s[j] == '.' {
					dots++
				} else {
					digits++
				}
				j++
			}
			if digits == 0 || dots > 1 {
				return nil, fmt.Errorf("a number is malformed: %q", s[i:j])
			}
			if j < len(s) {
				if c, _ := utf8.DecodeRuneInString(s[j:]); letter(c) {
					return nil, fmt.Errorf("a number is followed by text: %.20q", s[i:])
				}
			}
			out = append(out, dotTok{'i', s[i:j]})
			i = j
		default:
			return nil, fmt.Errorf("unexpected %q", c)
		}
	}
	return
}

type dotParser struct {
	t []dotTok
	g *dotGraph
}

type dotErr string

func (p *dotParser) peek(n int) dotTok {
	if n < len(p.t) {
		return p.t[n]
	}
	return dotTok{}
}

func (p *dotParser) take(kind byte) dotTok {
	t := p.peek(0)
	if t.kind != kind {
		panic(dotErr(fmt.Sprintf("%q stands where %q is expected", t.text, kind)))
	}
	p.t = p.t[1:]
	return t
}

func (p *dotParser) keyword(n int) string {
	if t := p.peek(n); t.kind == 'i' {
		switch k := strings.ToLower(t.text); k {
		case "node", "edge", "graph", "digraph", "subgraph", "strict":
			return k
		}
	}
	return ""
}

func (p *dotParser) id() string {
	t := p.peek(0)
	if t.kind != 'i' && t.kind != 'q' || p.keyword(0) != "" {
		panic(dotErr(fmt.Sprintf("%q stands where a name is expected", t.text)))
	}
	p.t = p.t[1:]
	return t.text
}

func readDot(s string) (g *dotGraph, err error) {
	p := &dotParser{g: &dotGraph{attrs: map[string]string{}, nodes: map[string]*dotNode{}}}
	if p.t, err = dotLex(s); err != nil {
		return nil, err
	}
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(dotErr)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("%s", e)
		}
	}()
	if p.keyword(0) == "strict" {
		p.take('i')
	}
	if p.keyword(0) != "digraph" {
		return nil, fmt.Errorf("it is not a directed graph")
	}
	p.take('i')
	if p.peek(0).kind != '{' {
		p.g.name = p.id()
	}
	p.take('{')
	p.stmts(nil)
	p.take('}')
	if len(p.t) > 0 {
		return nil, fmt.Errorf("text follows the graph")
	}
	return p.g, nil
}

func (p *dotParser) attrList(into map[string]string) {
	for p.peek(0).kind == '[' {
		p.take('[')
		for p.peek(0).kind != ']' {
			k := p.id()
			p.take('=')
			v := p.id()
			if into != nil {
				into[k] = v
			}
			if k := p.peek(0).kind; k == ';' || k == ',' {
				p.take(k)
			}
		}
		p.take(']')
	}
}

func (p *dotParser) node(id string, c *dotCluster) *dotNode {
	n := p.g.nodes[id]
	if n == nil {
		n = &dotNode{id: id, attrs: map[string]string{}}
		p.g.nodes[id] = n
		p.g.order = append(p.g.order, id)
	}
	if c != nil {
		for _, x := range n.clusters {
			if x == c.id {
				return n
			}
		}
		n.clusters = append(n.clusters, c.id)
		c.nodes = append(c.nodes, id)
	}
	return n
}

func (p *dotParser) stmts(c *dotCluster) {
	for p.peek(0).kind != '}' {
		if len(p.t) == 0 {
			panic(dotErr("it ends too early"))
		}
		switch k := p.keyword(0); {
		case p.peek(0).kind == ';':
			p.take(';')
		case k == "graph" || k == "node" || k == "edge":
			p.take('i')
			m := map[string]string{}
			p.attrList(m)
			if k == "graph" {
				p.set(c, m)
			}
		case k == "subgraph":
			p.take('i')
			sub := &dotCluster{attrs: map[string]string{}}
			if p.peek(0).kind != '{' {
				sub.id = p.id()
			}
			for _, x := range p.g.clusters {
				if x.id == sub.id {
					sub = x
				}
			}
			p.take('{')
			p.stmts(sub)
			p.take('}')
			p.g.clusters = append(p.g.clusters, sub)
		case p.peek(0).kind == '{':
			panic(dotErr("a subgraph without a name"))
		case p.peek(1).kind == '=':
			k := p.id()
			p.take('=')
			p.set(c, map[string]string{k: p.id()})
		default:
			ids := []string{p.id()}
			if p.peek(0).kind == ':' {
				panic(dotErr("a port"))
			}
			for p.peek(0).kind == '>' {
				p.take('>')
				ids = append(ids, p.id())
				if p.peek(0).kind == ':' {
					panic(dotErr("a port"))
				}
			}
			if len(ids) == 1 {
				n := p.node(ids[0], c)
				n.stmts++
				p.attrList(n.attrs)
				break
			}
			p.attrList(nil)
			for i := 1; i < len(ids); i++ {
				p.node(ids[i-1], c)
				p.node(ids[i], c)
				p.g.edges = append(p.g.edges, [2]string{ids[i-1], ids[i]})
			}
		}
	}
}

func (p *dotParser) set(c *dotCluster, m map[string]string) {
	into := p.g.attrs
	if c != nil {
		into = c.attrs
	}
	for k, v := range m {
		into[k] = v
	}
}

// shown is the text that a label displays.
func shown(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n', 'l', 'r':
				b.WriteByte('\n')
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}
