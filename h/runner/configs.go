//go:build go1.21

package main

import "math/bits"

// dags enumerates every acyclic dependency relation on n labelled tasks.
// From five tasks on, only those where no task depends on a later one.
func dags(n int) [][][]int {
	var out [][][]int
	if n > 4 {
		for m := 0; m < 1<<(n*(n-1)/2); m++ {
			g, k := make([][]int, n), 0
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					if m>>k&1 == 1 {
						g[i] = append(g[i], j)
					}
					k++
				}
			}
			out = append(out, g)
		}
		return out
	}
	for _, g := range digraphs(n) {
		c := cfg{Deps: g, Target: make([]int, n)}
		if c.acyclic() {
			out = append(out, g)
		}
	}
	return out
}

// digraphs enumerates every relation on n labelled tasks, self loops included.
func digraphs(n int) [][][]int {
	var out [][][]int
	for m := 0; m < 1<<(n*n); m++ {
		g := make([][]int, n)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if m&(1<<(i*n+j)) != 0 {
					g[i] = append(g[i], j)
				}
			}
		}
		out = append(out, g)
	}
	return out
}

// partitions enumerates assignments of n tasks to targets, up to the
// targets' names (restricted growth strings), onto at most k targets.
func partitions(n, k int) [][]int {
	var out [][]int
	var rec func(p []int, max int)
	rec = func(p []int, max int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for t := 0; t <= max && t < k; t++ {
			m := max
			if t == max {
				m++
			}
			rec(append(append([]int(nil), p...), t), m)
		}
	}
	rec(nil, 0)
	return out
}

func limitsets(nt, max int) [][]int {
	out := [][]int{{}}
	for i := 0; i < nt; i++ {
		var next [][]int
		for _, p := range out {
			for l := 1; l <= max; l++ {
				next = append(next, append(append([]int(nil), p...), l))
			}
		}
		out = next
	}
	return out
}

func ntargets(p []int) int {
	n := 0
	for _, t := range p {
		if t+1 > n {
			n = t + 1
		}
	}
	return n
}

type size struct {
	n, targets, maxLimit, fails, extra int
	every                              int // keep one DAG in every (1: all)
	rev                                bool
	devs                               int
	startFail                          bool
	onlyFails                          bool
}

func expand(s size) []cfg {
	var out []cfg
	gs := dags(s.n)
	for gi, g := range gs {
		if s.every > 1 && gi%s.every != 0 {
			continue
		}
		for _, p := range partitions(s.n, s.targets) {
			nt := ntargets(p) + s.extra
			if s.n == 0 && nt == 0 && s.startFail {
				continue
			}
			for _, l := range limitsets(nt, s.maxLimit) {
				for f := 0; f < 1<<s.n; f++ {
					if bits.OnesCount(uint(f)) > s.fails || s.onlyFails && f == 0 {
						continue
					}
					sf := []int{0}
					if s.startFail {
						sf = nil
						for i := 1; i < 1<<nt; i++ {
							sf = append(sf, i)
						}
					}
					for _, x := range sf {
						for r := 0; r < 2; r++ {
							if r == 1 && !s.rev {
								continue
							}
							out = append(out, cfg{Deps: g, Target: p, Limits: l, Fail: f, StartFail: x, MapRev: r == 1, MapDevs: s.devs})
						}
					}
				}
			}
		}
	}
	return out
}

func invalid(n, every int) []cfg {
	var out []cfg
	k := 0
	for _, g := range digraphs(n) {
		c := cfg{Deps: g, Target: make([]int, n)}
		if c.acyclic() {
			continue
		}
		k++
		if k%every != 0 {
			continue
		}
		for _, p := range partitions(n, 2) {
			l := make([]int, ntargets(p))
			for i := range l {
				l[i] = 1
			}
			out = append(out, cfg{Deps: g, Target: p, Limits: l})
		}
	}
	return out
}

func dangling(n int) []cfg {
	var out []cfg
	for _, g := range dags(n) {
		for i := 0; i < n; i++ {
			h := make([][]int, n)
			for j := range h {
				h[j] = append([]int(nil), g[j]...)
			}
			h[i] = append(h[i], n)
			l := []int{1}
			out = append(out, cfg{Deps: h, Target: make([]int, n), Limits: l})
		}
	}
	return out
}

// relisted are the same runbooks, but with the lists of dependencies
// written in other ways, where there are any.
func relisted(cs []cfg) []cfg {
	var out []cfg
	for _, c := range cs {
		n := 0
		for _, d := range c.Deps {
			n += len(d)
		}
		if n == 0 {
			continue
		}
		for l := 1; l < lists; l++ {
			c.List = l
			out = append(out, c)
		}
	}
	return out
}
