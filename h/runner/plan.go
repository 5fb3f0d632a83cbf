//go:build go1.21

package main

import (
	"fmt"
	"sort"

	"github.com/sjansen/pgutil/internal/zzverif/mc"
)

// families returns what is explored for a property. Small first: when the
// time budget runs out, what is left over are the largest runbooks.
func families(prop string, thorough bool) ([]size, []cfg) {
	var fs []size
	var extra []cfg
	add := func(s ...size) { fs = append(fs, s...) }
	// one and two tasks: both map orders and one deviation from them
	tiny := []size{
		{n: 1, targets: 1, maxLimit: 2, fails: 1, extra: 1, devs: 1, rev: true},
		{n: 2, targets: 2, maxLimit: 2, fails: 2, devs: 1, rev: true},
	}
	empty := []cfg{{}, {Limits: []int{1}}, {Limits: []int{1, 2}}, {Limits: []int{2}, StartFail: 1}, {Limits: []int{1, 2}, StartFail: 2}}
	named := func(fails int) {
		for _, s := range []size{{n: 2, targets: 2, maxLimit: 2, fails: fails}, {n: 3, targets: 2, maxLimit: 1, fails: fails}} {
			for _, c := range expand(s) {
				c.EmptyName = true
				extra = append(extra, c)
			}
		}
	}
	written := func(s size) { extra = append(extra, relisted(expand(s))...) }
	startFails := []size{
		{n: 1, targets: 1, maxLimit: 2, startFail: true, extra: 1, devs: 2, rev: true},
		{n: 2, targets: 2, maxLimit: 2, startFail: true, fails: 1, devs: 1, rev: true},
		{n: 2, targets: 2, maxLimit: 1, startFail: true, extra: 1, devs: 1},
		{n: 3, targets: 3, maxLimit: 1, startFail: true, devs: 1},
	}
	switch prop {
	case "C01":
		add(tiny...)
		named(0)
		written(size{n: 2, targets: 2, maxLimit: 1, fails: 1})
		written(size{n: 3, targets: 2, maxLimit: 1, fails: 1})
		add(size{n: 3, targets: 3, maxLimit: 2, fails: 1})
		add(size{n: 4, targets: 2, maxLimit: 1, fails: 1, every: 4})
		if thorough {
			add(startFails...)
			add(size{n: 3, targets: 3, maxLimit: 3, fails: 3, rev: true, devs: 1})
			add(size{n: 4, targets: 3, maxLimit: 2, fails: 1, rev: true})
			add(size{n: 5, targets: 2, maxLimit: 1, fails: 1, every: 7})
		}
	case "C02":
		extra = append(extra, empty...)
		add(tiny...)
		named(1)
		written(size{n: 2, targets: 2, maxLimit: 1, fails: 1})
		written(size{n: 3, targets: 2, maxLimit: 1})
		add(startFails...)
		add(size{n: 3, targets: 3, maxLimit: 2, fails: 1})
		add(size{n: 4, targets: 2, maxLimit: 2, every: 9})
		add(size{n: 3, targets: 1, maxLimit: 3, fails: 3})
		extra = append(extra, invalid(2, 1)...)
		extra = append(extra, dangling(2)...)
		if thorough {
			add(size{n: 3, targets: 3, maxLimit: 3, fails: 3, rev: true, devs: 1})
			add(size{n: 4, targets: 3, maxLimit: 3, fails: 1, rev: true})
			add(size{n: 4, targets: 4, maxLimit: 2, fails: 4})
			add(size{n: 5, targets: 2, maxLimit: 2, fails: 1, every: 7})
		}
	case "C03":
		extra = append(extra, empty...)
		extra = append(extra, invalid(1, 1)...)
		extra = append(extra, invalid(2, 1)...)
		extra = append(extra, invalid(3, 1)...)
		for i := 1; i <= 3; i++ {
			extra = append(extra, dangling(i)...)
		}
		written(size{n: 3, targets: 2, maxLimit: 1, fails: 1})
		extra = append(extra, relisted(invalid(2, 1))...)
		extra = append(extra, relisted(invalid(3, 3))...)
		extra = append(extra, relisted(dangling(3))...)
		for _, c := range invalid(2, 1) {
			c.EmptyName = true
			extra = append(extra, c)
		}
		add(tiny...)
		add(startFails...)
		add(size{n: 3, targets: 3, maxLimit: 2, fails: 3, every: 2})
		if thorough {
			add(size{n: 3, targets: 3, maxLimit: 3, fails: 3, rev: true, devs: 1})
			add(size{n: 4, targets: 3, maxLimit: 2, fails: 4, rev: true})
			extra = append(extra, invalid(4, 7)...)
		}
	case "C31":
		add(tiny...)
		add(startFails...)
		add(size{n: 3, targets: 3, maxLimit: 1, fails: 3})
		add(size{n: 3, targets: 2, maxLimit: 2, fails: 1, every: 2})
		extra = append(extra, invalid(2, 1)...)
		if thorough {
			add(size{n: 3, targets: 3, maxLimit: 3, fails: 3, rev: true, devs: 1})
			add(size{n: 4, targets: 3, maxLimit: 2, fails: 2, rev: true})
		}
	case "C04":
		add(tiny...)
		add(size{n: 3, targets: 3, maxLimit: 2, fails: 0})
		add(size{n: 3, targets: 1, maxLimit: 3, fails: 1, rev: true})
		add(size{n: 4, targets: 1, maxLimit: 3, every: 5})
		if thorough {
			add(size{n: 3, targets: 3, maxLimit: 3, fails: 1, rev: true, devs: 1})
			add(size{n: 4, targets: 2, maxLimit: 3, fails: 1, rev: true})
		}
	case "C05":
		extra = append(extra, empty...)
		add(tiny...)
		add(startFails...)
		extra = append(extra, invalid(2, 1)...)
		add(size{n: 3, targets: 3, maxLimit: 2, fails: 1, every: 2})
		add(size{n: 3, targets: 2, maxLimit: 1, fails: 3, devs: 1, every: 2})
		if thorough {
			add(size{n: 3, targets: 3, maxLimit: 3, fails: 3, rev: true, devs: 1})
			add(size{n: 3, targets: 3, maxLimit: 2, startFail: true, fails: 1, devs: 2, rev: true})
			add(size{n: 4, targets: 3, maxLimit: 2, fails: 2, rev: true})
			extra = append(extra, invalid(3, 1)...)
		}
	case "C06":
		add(size{n: 1, targets: 1, maxLimit: 2, extra: 1, devs: 1, rev: true})
		add(size{n: 2, targets: 2, maxLimit: 2, devs: 2, rev: true})
		written(size{n: 3, targets: 2, maxLimit: 1})
		add(size{n: 3, targets: 3, maxLimit: 2, rev: true})
		add(size{n: 4, targets: 2, maxLimit: 2, every: 3})
		if thorough {
			add(size{n: 3, targets: 3, maxLimit: 3, rev: true, devs: 1})
			add(size{n: 4, targets: 4, maxLimit: 2, rev: true})
			add(size{n: 5, targets: 2, maxLimit: 1, every: 31})
		}
	}
	return fs, extra
}

func configs(prop string, thorough bool) []cfg {
	fs, out := families(prop, thorough)
	for _, f := range fs {
		out = append(out, expand(f)...)
	}
	out = append(out, kindsOfErrors(prop)...)
	out = append(out, large(thorough)...)
	if prop == "C31" {
		for m := 1; m <= 2; m++ {
			for _, s := range []size{{n: 1, targets: 1, maxLimit: 1, fails: 1}, {n: 2, targets: 2, maxLimit: 2, fails: 1}, {n: 3, targets: 2, maxLimit: 1, fails: 1}} {
				for _, c := range expand(s) {
					c.Msg = m
					out = append(out, c)
				}
			}
		}
		for i, c := range large(thorough) {
			if i%3 > 0 {
				c.Msg = i % 3
				out = append(out, c)
			}
		}
	}
	for i := range out {
		out[i].Messages = prop == "C31"
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].weight() < out[j].weight() })
	return out
}

// weight orders configurations by the size of their state space, roughly.
func (c cfg) weight() int {
	if c.Shape != "" {
		return len(c.Target)
	}
	w := len(c.Target)*10 + c.MapDevs*4 + len(c.Limits)
	return w
}

func boundText(prop string, thorough bool) string {
	fs, extra := families(prop, thorough)
	var ss []string
	for _, f := range fs {
		ss = append(ss, fmt.Sprintf("%+v", f))
	}
	return fmt.Sprintf("all interleavings, no preemption bound, of every runbook of these families %v, and of %d further ones; %d runs of larger ones (up to %d tasks) under up to %d fixed schedulers", ss, len(extra)+len(kindsOfErrors(prop)), len(large(thorough)), maxLarge(thorough), mc.Policies)
}

// stepConfigs are the runbooks of the stepwise exploration.
func stepConfigs(prop string, thorough bool) []cfg {
	var out []cfg
	add := func(preempt int, ss ...size) {
		for _, s := range ss {
			for _, c := range expand(s) {
				c.Preempt = preempt
				out = append(out, c)
			}
		}
	}
	p := 0
	if thorough {
		p = 1
	}
	add(2+p, size{n: 0, targets: 1, maxLimit: 1, extra: 1})
	add(2+p, size{n: 1, targets: 1, maxLimit: 2, fails: 1, startFail: true})
	add(2+p, size{n: 1, targets: 1, maxLimit: 2, fails: 1})
	add(1+p, size{n: 1, targets: 1, maxLimit: 1, startFail: true, extra: 1})
	add(2+p, size{n: 2, targets: 2, maxLimit: 1, fails: 1})
	add(1+p, size{n: 2, targets: 2, maxLimit: 2, fails: 2})
	add(1, size{n: 3, targets: 3, maxLimit: 1, fails: 1, every: 3 - 2*p})
	for _, c := range append(invalid(1, 1), dangling(1)...) {
		c.Preempt = 2 + p
		out = append(out, c)
	}
	for i := range out {
		out[i].Messages = prop == "C31"
	}
	return out
}

// kindsOfErrors are runbooks whose tasks or targets fail in every way.
func kindsOfErrors(prop string) (out []cfg) {
	if prop == "C04" || prop == "C06" {
		return nil
	}
	for k := 1; k < len(kinds); k++ {
		for _, s := range []size{{n: 1, targets: 1, maxLimit: 1, fails: 1, onlyFails: true}, {n: 2, targets: 2, maxLimit: 1, fails: 2, onlyFails: true},
			{n: 1, targets: 1, maxLimit: 1, startFail: true, extra: 1}} {
			for _, c := range expand(s) {
				c.Kind = k
				out = append(out, c)
				c.Bare = true
				out = append(out, c)
			}
		}
	}
	return
}

func sizes(thorough bool) []int {
	out := []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 25, 26, 27, 31, 32, 33, 34, 40, 50, 63, 64, 65, 66, 100, 127, 128, 129, 257}
	if thorough {
		out = nil
		for i := 5; i < 140; i++ {
			out = append(out, i)
		}
		out = append(out, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025)
	}
	return out
}

func maxLarge(thorough bool) int { s := sizes(thorough); return s[len(s)-1] }

// large are runbooks of given shapes and sizes. Not all interleavings: a
// number of fixed schedulers each.
func large(thorough bool) (out []cfg) {
	shapes := []struct {
		name string
		deps func(i, n int) []int
	}{
		{"independent", func(i, n int) []int { return nil }},
		{"chain", func(i, n int) []int { return upto(i, 1) }},
		{"fan out", func(i, n int) []int {
			if i > 0 {
				return []int{0}
			}
			return nil
		}},
		{"fan in", func(i, n int) []int {
			if i == n-1 {
				return upto(i, i)
			}
			return nil
		}},
		{"complete", func(i, n int) []int {
			if n > 130 {
				return upto(i, 130)
			}
			return upto(i, i)
		}},
		{"layers", func(i, n int) []int {
			l := i / 4 * 4
			return upto(l, 4)
		}},
		{"tree", func(i, n int) []int {
			if i > 0 {
				return []int{(i - 1) / 2}
			}
			return nil
		}},
		{"hourglass", func(i, n int) []int {
			switch {
			case i < n/2:
				return nil
			case i == n/2:
				return upto(i, i)
			}
			return []int{n / 2}
		}},
	}
	for _, n := range sizes(thorough) {
		for _, s := range shapes {
			for _, nt := range []int{1, 2, 5} {
				for li, l := range []int{1, 3, n} {
					if n > 33 && li == 1 && !thorough {
						continue
					}
					for fi, f := range []int{0, n, n/2 + 1} {
						if n > 17 && fi == 2 && !thorough || n > 200 && fi+li > 0 && !thorough {
							continue
						}
						c := cfg{Shape: fmt.Sprintf("%s of %d tasks, %d targets, limit %d, fails %d", s.name, n, nt, l, f), Fail: f, NamesRev: n%2 == 1, MapRev: n%3 == 0}
						for t := 0; t < nt; t++ {
							c.Limits = append(c.Limits, l)
						}
						for i := 0; i < n; i++ {
							c.Target = append(c.Target, i%nt)
							c.Deps = append(c.Deps, s.deps(i, n))
						}
						for p := 1; p <= mc.Policies; p++ {
							if n > 33 && p%3 != 1 && !thorough {
								continue
							}
							c.Policy = p
							out = append(out, c)
						}
					}
				}
			}
		}
	}
	return
}

// upto are the k tasks before i.
func upto(i, k int) (out []int) {
	for j := i - k; j < i; j++ {
		if j >= 0 {
			out = append(out, j)
		}
	}
	return
}
