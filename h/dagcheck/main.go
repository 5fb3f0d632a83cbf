//go:build go1.21

// Command dagcheck decides C07: every directed graph up to a size bound is
// sorted, and every reachable state of the graph editing operations is
// visited, against plain reference sets.
package main

import (
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sjansen/pgutil/internal/dag"
	"github.com/sjansen/pgutil/internal/zzverif/ev"
	"github.com/sjansen/pgutil/internal/zzverif/mc"
	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

var rep = ev.New("C07", "model_checking")

type rel struct {
	names []string
	adj   []uint // bit j of adj[i]: edge i -> j
}

func (r rel) String() string {
	var s []string
	for i, a := range r.adj {
		var t []string
		for j := range r.names {
			if a&(1<<j) != 0 {
				t = append(t, r.names[j])
			}
		}
		s = append(s, fmt.Sprintf("%q->%q", r.names[i], t))
	}
	return strings.Join(s, " ")
}

// written is the number of ways to write a graph down: in descending
// order, in ascending order with the first edge repeated right away, and in
// descending order with the first repeated at the end.
const written = 3

func (r rel) nodes(way int) map[string][]string {
	m := map[string][]string{}
	for i, a := range r.adj {
		l := []string{}
		for j := len(r.names) - 1; j >= 0; j-- {
			if a&(1<<j) != 0 {
				l = append(l, r.names[j])
			}
		}
		switch {
		case len(l) == 0:
		case way == 1:
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			l = append(l[:1:1], l...)
		case way == 2:
			l = append(l, l[0])
		}
		m[r.names[i]] = l
	}
	return m
}

func (r rel) acyclic() bool {
	left := uint(1<<len(r.adj)) - 1
	for left != 0 {
		p := false
		for i := range r.adj {
			if left&(1<<i) != 0 && r.adj[i]&left == 0 {
				left &^= 1 << i
				p = true
			}
		}
		if !p {
			return false
		}
	}
	return true
}

func (r rel) index(s string) int {
	for i, n := range r.names {
		if n == s {
			return i
		}
	}
	return -1
}

// sorted explains what is wrong with a claimed order, or returns "".
func (r rel) sorted(order []string) string {
	if len(order) != len(r.names) {
		return fmt.Sprintf("the order %q does not have %d nodes", order, len(r.names))
	}
	var seen uint
	for _, s := range order {
		i := r.index(s)
		if i < 0 || seen&(1<<i) != 0 {
			return fmt.Sprintf("the order %q has an unknown or repeated node %q", order, s)
		}
		if r.adj[i]&^seen != 0 {
			return fmt.Sprintf("in the order %q node %q comes before a node it points to", order, s)
		}
		seen |= 1 << i
	}
	return ""
}

// isCycle explains why c is not a cycle of the graph, or returns "".
func (r rel) isCycle(c []string) string {
	if len(c) == 0 {
		return "no cycle is reported"
	}
	seen := map[string]bool{}
	var ix []int
	for _, s := range c {
		i := r.index(s)
		if i < 0 || seen[s] {
			return fmt.Sprintf("the reported cycle %q has an unknown or repeated node", c)
		}
		seen[s] = true
		ix = append(ix, i)
	}
	fwd, bwd := true, true
	for k := range ix {
		a, b := ix[k], ix[(k+1)%len(ix)]
		fwd = fwd && r.adj[a]&(1<<b) != 0
		bwd = bwd && r.adj[b]&(1<<a) != 0
	}
	if !fwd && !bwd {
		return fmt.Sprintf("the reported nodes %q do not form a cycle in that order", c)
	}
	return ""
}

func flat(g *dag.DirectedGraph) string {
	var out []string
	for n, set := range *g {
		var t []string
		for m := range set {
			t = append(t, m)
		}
		sort.Strings(t)
		out = append(out, fmt.Sprintf("%q%q", n, t))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

var mu sync.Mutex

func guard(what string, f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%s panics: %v", what, r)
		}
	}()
	mc.IdleTicks = 0
	f()
	return ""
}

func checkSort(r rel) string {
	var first, firstCycle []string
	for pass := 0; pass < 2*written; pass++ {
		mc.MapReverse = pass%2 == 1
		nodes := r.nodes(pass / 2)
		var g *dag.DirectedGraph
		var err error
		var order, cycle []string
		var before string
		if p := guard("sorting", func() {
			g, err = dag.NewDirectedGraph(nodes)
			if err == nil {
				before = flat(g)
				order, cycle = dag.TSort(g)
			}
		}); p != "" {
			return p
		}
		if err != nil {
			return fmt.Sprintf("a graph without unknown nodes is refused: %v", err)
		}
		for i, n := range r.names {
			if got := g.OutDegree(n); got != bits.OnesCount(r.adj[i]) {
				return fmt.Sprintf("node %q of %q has out degree %d", n, nodes, got)
			}
		}
		if flat(g) != before {
			return "sorting changes the graph"
		}
		if r.acyclic() {
			if cycle != nil {
				return fmt.Sprintf("the graph has no cycle, but %q is reported", cycle)
			}
			if w := r.sorted(order); w != "" {
				return w
			}
		} else {
			if len(order) != 0 {
				return fmt.Sprintf("the graph has a cycle, but an order is returned: %q", order)
			}
			if w := r.isCycle(cycle); w != "" {
				return w
			}
		}
		if pass == 0 {
			first, firstCycle = order, cycle
		} else if !reflect.DeepEqual(first, order) || !reflect.DeepEqual(firstCycle, cycle) {
			return fmt.Sprintf("the result depends on the map iteration order or on how the edges are listed: %q %q or %q %q", first, firstCycle, order, cycle)
		}
		// the dependency graph must agree
		var d *dag.DependencyGraph
		if p := guard("building", func() { d, err = dag.NewDependencyGraph(nodes) }); p != "" {
			return p
		}
		if r.acyclic() {
			if err != nil || d == nil {
				return fmt.Sprintf("valid dependencies are refused: %v", err)
			}
			if d.HasPending() != (len(r.names) > 0) {
				return "pending is wrong in a new dependency graph"
			}
		} else {
			var ce *dag.CircularDependencyError
			if !errors.As(err, &ce) {
				return fmt.Sprintf("circular dependencies are not refused as such: %v", err)
			}
			if w := r.isCycle(ce.Cycle); w != "" {
				return w
			}
			for _, n := range ce.Cycle {
				if !strings.Contains(ce.Error(), fmt.Sprintf("%q", n)) {
					return fmt.Sprintf("the error %q does not name %q", ce.Error(), n)
				}
			}
		}
	}
	return ""
}

// checkDangling: relations where one edge goes to a node that is not there.
func checkDangling(r rel, at int) string {
	for pass := 0; pass < 4*written; pass++ {
		mc.MapReverse = pass%2 == 1
		m := r.nodes(pass / 4)
		l := m[r.names[at]]
		if pass&2 != 0 {
			l = append([]string{"nosuch"}, l...)
		} else {
			l = append(l, "nosuch")
		}
		m[r.names[at]] = l
		var g *dag.DirectedGraph
		var d *dag.DependencyGraph
		var e1, e2 error
		if p := guard("building", func() { g, e1 = dag.NewDirectedGraph(m); d, e2 = dag.NewDependencyGraph(m) }); p != "" {
			return p
		}
		if g != nil || d != nil {
			return "a graph with an unknown node is returned"
		}
		for _, err := range []error{e1, e2} {
			var ie *dag.InvalidEdgeError
			if !errors.As(err, &ie) || ie.Node != r.names[at] || ie.Edge != "nosuch" {
				return fmt.Sprintf("the unknown node is not reported: %v", err)
			}
			if !strings.Contains(ie.Error(), fmt.Sprintf("%q", ie.Node)) || !strings.Contains(ie.Error(), `"nosuch"`) {
				return fmt.Sprintf("the error %q does not name both nodes", ie.Error())
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- edits

type model struct {
	nodes map[string]bool
	edges map[[2]string]bool
}

func (m model) String() string {
	var out []string
	for n := range m.nodes {
		var t []string
		for e := range m.edges {
			if e[0] == n {
				t = append(t, e[1])
			}
		}
		sort.Strings(t)
		out = append(out, fmt.Sprintf("%q%q", n, t))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

type edit struct {
	name  string
	apply func(g *dag.DirectedGraph)
	model func(m model)
}

func edits(names []string) []edit {
	var out []edit
	addEdge := func(m model, a, b string) {
		m.nodes[a], m.nodes[b] = true, true
		m.edges[[2]string{a, b}] = true
	}
	for _, a := range names {
		a := a
		out = append(out, edit{"RemoveNode " + a, func(g *dag.DirectedGraph) { g.RemoveNode(a) }, func(m model) {
			delete(m.nodes, a)
			for e := range m.edges {
				if e[0] == a || e[1] == a {
					delete(m.edges, e)
				}
			}
		}})
		out = append(out, edit{"AddEdges " + a + " none", func(g *dag.DirectedGraph) { g.AddEdges(a, nil) }, func(m model) {}})
		for _, b := range names {
			b := b
			out = append(out, edit{"AddEdge " + a + " " + b, func(g *dag.DirectedGraph) { g.AddEdge(a, b) }, func(m model) { addEdge(m, a, b) }})
			out = append(out, edit{"RemoveEdge " + a + " " + b, func(g *dag.DirectedGraph) { g.RemoveEdge(a, b) }, func(m model) { delete(m.edges, [2]string{a, b}) }})
			for _, c := range names {
				c := c
				if c == b {
					continue
				}
				out = append(out, edit{"AddEdges " + a + " " + b + " " + c, func(g *dag.DirectedGraph) { g.AddEdges(a, []string{b, c}) },
					func(m model) { addEdge(m, a, b); addEdge(m, a, c) }})
			}
		}
	}
	return out
}

type estate struct {
	init int
	hist []int
}

func exploreEdits(names []string, stop func() bool) (states, transitions int, complete bool, maxDepth int) {
	ops := edits(names)
	inits := []map[string][]string{nil, {}, {names[0]: {}}, {names[0]: {names[1]}, names[1]: {names[0]}}}
	build := func(s estate) (*dag.DirectedGraph, model, string) {
		m := model{map[string]bool{}, map[[2]string]bool{}}
		var g *dag.DirectedGraph
		p := guard("editing", func() {
			var err error
			src := map[string][]string{}
			for k, v := range inits[s.init] {
				src[k] = append([]string(nil), v...)
				m.nodes[k] = true
				for _, x := range v {
					m.edges[[2]string{k, x}] = true
				}
			}
			g, err = dag.NewDirectedGraph(src)
			if err != nil {
				panic(err)
			}
			for k := range src { // the graph must not share the caller's data
				for i := range src[k] {
					src[k][i] = "clobbered"
				}
				delete(src, k)
			}
			for _, o := range s.hist {
				ops[o].apply(g)
				ops[o].model(m)
			}
		})
		return g, m, p
	}
	describe := func(s estate) string {
		var h []string
		for _, o := range s.hist {
			h = append(h, ops[o].name)
		}
		return fmt.Sprintf("start %v, edits %q", inits[s.init], h)
	}
	seen := map[string]bool{}
	var frontier []estate
	visit := func(s estate) bool {
		transitions++
		g, m, p := build(s)
		bad := p
		if bad == "" && flat(g) != m.String() {
			bad = fmt.Sprintf("the graph is %s, the same edits leave %s", flat(g), m)
		}
		if bad == "" {
			for _, n := range append([]string{"nosuch"}, names...) {
				d := 0
				for e := range m.edges {
					if e[0] == n {
						d++
					}
				}
				if g.HasNode(n) != m.nodes[n] || g.OutDegree(n) != d {
					bad = fmt.Sprintf("node %q: present %v, out degree %d; expected %v, %d", n, g.HasNode(n), g.OutDegree(n), m.nodes[n], d)
				}
			}
		}
		if bad == "" {
			// asking must not change anything, and sorting an edited graph works
			r := rel{}
			for n := range m.nodes {
				r.names = append(r.names, n)
			}
			sort.Strings(r.names)
			r.adj = make([]uint, len(r.names))
			for e := range m.edges {
				r.adj[r.index(e[0])] |= 1 << r.index(e[1])
			}
			order, cycle := dag.TSort(g)
			if r.acyclic() {
				if bad = r.sorted(order); bad == "" && cycle != nil {
					bad = "a cycle is reported in an acyclic graph"
				}
			} else {
				bad = r.isCycle(cycle)
			}
			if bad == "" && flat(g) != m.String() {
				bad = "asking about the graph changes it"
			}
		}
		if bad != "" {
			rep.Add("edits "+describe(s), bad+"\n"+describe(s), nil)
			return false
		}
		watch.Tick()
		k := m.String()
		if !seen[k] {
			seen[k] = true
			frontier = append(frontier, s)
			if len(s.hist) > maxDepth {
				maxDepth = len(s.hist)
			}
		}
		return true
	}
	for i := range inits {
		if !visit(estate{i, nil}) {
			return len(seen), transitions, false, maxDepth
		}
	}
	for len(frontier) > 0 {
		s := frontier[0]
		frontier = frontier[1:]
		if stop() {
			return len(seen), transitions, false, maxDepth
		}
		for o := range ops {
			if !visit(estate{s.init, append(append([]int(nil), s.hist...), o)}) {
				return len(seen), transitions, false, maxDepth
			}
		}
	}
	return len(seen), transitions, true, maxDepth
}

func exploreSets() int {
	n := 0
	names := []string{"", "a", "b"}
	var rec func(hist []int)
	rec = func(hist []int) {
		n++
		watch.Tick()
		s, m := dag.NodeSet{}, map[string]bool{}
		for _, h := range hist {
			if x := names[h%3]; h < 3 {
				s.Add(x)
				m[x] = true
			} else {
				s.Remove(x)
				delete(m, x)
			}
		}
		ok := s.Size() == len(m)
		for _, x := range append(names, "nosuch") {
			ok = ok && s.Contains(x) == m[x]
		}
		if !ok {
			rep.Addf(fmt.Sprintf("nodeset %v", hist), "a node set is %v, the same edits leave %v", s, m)
		}
		if len(hist) < 5 {
			for h := 0; h < 6; h++ {
				rec(append(append([]int(nil), hist...), h))
			}
		}
	}
	rec(nil)
	return n
}

// large returns graphs of n nodes: shapes, alone and with one edge that
// closes a cycle, the names in the order of the graph or in the opposite one.
func large(n int) (out []rel) {
	shapes := []func(i int) uint{
		func(i int) uint { return 0 },
		func(i int) uint { // a chain
			if i == 0 {
				return 0
			}
			return 1 << (i - 1)
		},
		func(i int) uint { // everything after the first
			if i == 0 {
				return 0
			}
			return 1
		},
		func(i int) uint { // the last after everything
			if i < n-1 {
				return 0
			}
			return 1<<i - 1
		},
		func(i int) uint { return 1<<i - 1 }, // complete
		func(i int) uint { return 1<<(i/3*3) - 1 },
		func(i int) uint { // a tree
			if i == 0 {
				return 0
			}
			return 1 << ((i - 1) / 2)
		},
	}
	for way := 0; way < 3; way++ {
		names := make([]string, n)
		for i := range names {
			switch way {
			case 0:
				names[i] = fmt.Sprintf("n%03d", i)
			case 1:
				names[i] = fmt.Sprintf("n%03d", n-i)
			case 2:
				names[i] = fmt.Sprint(i * 37 % 101)
			}
		}
		for _, f := range shapes {
			r := rel{names, make([]uint, n)}
			for i := range r.adj {
				r.adj[i] = f(i)
			}
			out = append(out, r)
			// close a cycle: from the first node of a chain to a later one
			for k := 0; k < n; k++ {
				if k > 1 && k < n-1 && (k%5 != 0 || n > 17 && !ev.Thorough()) {
					continue
				}
				for _, from := range []int{0, k / 2} {
					c := rel{names, append([]uint{}, r.adj...)}
					c.adj[from] |= 1 << k
					out = append(out, c)
				}
			}
		}
	}
	return
}

func main() {
	watch.Start(func() {
		rep.Add("no end", "an operation on a graph does not end", nil)
		rep.Finish()
	})
	stop := ev.Budget(60*time.Second, 700*time.Second)
	graphs, cyclic, complete := 0, 0, true
	var samples []any
	try := func(r rel) bool {
		graphs++
		watch.Tick()
		if w := checkSort(r); w != "" {
			rep.Add("graph "+r.String(), w+"\ngraph: "+r.String(), nil)
		}
		if !r.acyclic() {
			cyclic++
		}
		if graphs%20011 == 7 && len(samples) < 4 {
			samples = append(samples, r.String())
		}
		if graphs%512 == 0 && stop() {
			complete = false
			return false
		}
		return len(rep.Violations) < 20
	}
	all := func(names []string, loops bool) {
		n := len(names)
		bits := n * n
		if !loops {
			bits = n * (n - 1)
		}
		for m := uint(0); m < 1<<bits; m++ {
			r := rel{names, make([]uint, n)}
			if loops {
				for i := 0; i < n; i++ {
					r.adj[i] = (m >> (i * n)) & (1<<n - 1)
				}
			} else {
				k := 0
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						if i != j {
							r.adj[i] |= ((m >> k) & 1) << j
							k++
						}
					}
				}
			}
			if !try(r) {
				return
			}
		}
	}
	for n := 0; n <= 3; n++ {
		all([]string{"a", "b", "c"}[:n], true)
		all([]string{"", "b", "B c\""}[:n], true)
	}
	dang := 0
	for n := 1; n <= 3; n++ {
		names := []string{"", "b", "c"}[:n]
		for m := uint(0); m < 1<<(n*n); m++ {
			r := rel{names, make([]uint, n)}
			for i := 0; i < n; i++ {
				r.adj[i] = (m >> (i * n)) & (1<<n - 1)
			}
			for at := 0; at < n; at++ {
				dang++
				if w := checkDangling(r, at); w != "" {
					rep.Add(fmt.Sprintf("dangling %s at %q", r, names[at]), w+"\ngraph: "+r.String(), nil)
				}
			}
		}
	}
	all([]string{"a", "b", "c", "d"}, true)
	small := graphs
	for n := 5; n <= 64; n++ {
		if !ev.Thorough() && n > 12 && n != 16 && n != 17 && n != 33 && n != 64 {
			continue
		}
		for _, r := range large(n) {
			if !try(r) {
				break
			}
		}
	}
	sets := exploreSets()
	st, tr, ok, depth := exploreEdits([]string{"", "b", "c"}, stop)
	complete = complete && ok
	if ev.Thorough() {
		all([]string{"a", "b", "c", "d", "e"}, false)
		st4, tr4, ok4, _ := exploreEdits([]string{"a", "b", "c", "d"}, stop)
		st, tr, complete = st+st4, tr+tr4, complete && ok4
	}
	samples = append(samples, map[string]int{"graphs sorted": graphs, "of them large": graphs - small, "of them cyclic": cyclic, "with an unknown node": dang, "edit states": st, "edit transitions": tr, "node set histories": sets, "longest edit history": depth})
	rep.Coverage["states"] = graphs + st
	rep.Coverage["transitions"] = graphs*4 + tr + dang*4 + sets
	rep.Coverage["traces_validated_against_impl"] = graphs + tr + dang + sets
	rep.Coverage["cyclic_graphs"] = cyclic
	rep.Coverage["exhaustive"] = complete
	rep.Coverage["bound"] = "every digraph with self loops up to 4 nodes (5 without self loops in the thorough tier); graphs of up to 64 nodes of given shapes, as they are and with each of a set of edges that close a cycle of each length; every reachable state of the edit operations over 3 nodes (4 thorough); both map iteration orders; every graph written in three ways: lists in both orders, with an edge repeated in front or at the end"
	rep.Coverage["samples"] = samples
	rep.Finish()
}
