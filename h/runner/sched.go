//go:build go1.21

package main

import (
	"fmt"

	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zzverif/mc"
)

// schedResult counts what the scheduler-level exploration covered: every
// order in which the tasks handed out can be reported complete.
type schedResult struct {
	States, Steps int
	Tag, Msg      string
	Hist          []string
}

type plainTarget struct {
	types.Target
	limit int
}

func (t plainTarget) ConcurrencyLimit() int { return t.limit }

func schedule(c cfg, tag string) (res schedResult) {
	mc.MapReverse = c.MapRev
	targets := types.Targets{}
	for i, l := range c.Limits {
		targets[fmt.Sprintf("t%d", i)] = plainTarget{limit: l}
	}
	idx := map[string]int{}
	tasks := types.Tasks{}
	for i := range c.Target {
		idx[c.name(i)] = i
		tasks[c.name(i)] = &types.Task{Target: fmt.Sprintf("t%d", c.Target[i]), After: c.after(i)}
	}
	n := len(c.Target)

	// play runs one history of completions and returns the tasks that are
	// then out, in index order, or a violation.
	play := func(hist []int) (out []int, vtag, msg string) {
		defer func() {
			if r := recover(); r != nil {
				vtag, msg = "C02", fmt.Sprintf("panic: %v", r)
			}
		}()
		mc.IdleTicks = 0
		handed, completed := make([]bool, n), make([]bool, n)
		s, ready, err := scheduler.New(targets, tasks)
		if err != nil {
			return nil, "C03", fmt.Sprintf("a valid runbook is refused: %v", err)
		}
		for k := 0; ; k++ {
			res.Steps++
			if err != nil {
				for i := range handed {
					if !handed[i] {
						return nil, "C02", fmt.Sprintf("the scheduler stops (%v) although %q was never handed out", err, c.name(i))
					}
				}
			}
			for target, ids := range ready {
				for _, id := range ids {
					i, ok := idx[id]
					switch {
					case !ok:
						return nil, "C01", fmt.Sprintf("unknown task %q handed out", id)
					case handed[i]:
						return nil, "C01", fmt.Sprintf("task %q handed out twice", id)
					case target != fmt.Sprintf("t%d", c.Target[i]):
						return nil, "C01", fmt.Sprintf("task %q handed to %s", id, target)
					}
					for _, d := range c.Deps[i] {
						if !completed[d] {
							return nil, "C01", fmt.Sprintf("task %q handed out before %q completed", id, c.name(d))
						}
					}
					handed[i] = true
				}
			}
			outN := make([]int, len(c.Limits))
			out = out[:0]
			for i := range handed {
				if handed[i] && !completed[i] {
					outN[c.Target[i]]++
					out = append(out, i)
				}
			}
			for t, l := range c.Limits {
				if outN[t] > l {
					return nil, "C04", fmt.Sprintf("%d tasks of t%d are handed out and not complete, its limit is %d", outN[t], t, l)
				}
			}
			for i := range handed {
				if handed[i] || outN[c.Target[i]] >= c.Limits[c.Target[i]] {
					continue
				}
				ok := true
				for _, d := range c.Deps[i] {
					ok = ok && completed[d]
				}
				if ok {
					return nil, "C06", fmt.Sprintf("task %q has all its dependencies complete and t%d has capacity, but it is not handed out", c.name(i), c.Target[i])
				}
			}
			if k == len(hist) {
				return out, "", ""
			}
			completed[hist[k]] = true
			ready, err = s.Next(c.name(hist[k]))
		}
	}
	var rec func(hist []int) bool
	rec = func(hist []int) bool {
		res.States++
		out, vt, msg := play(hist)
		if vt != "" {
			if vt == tag {
				res.Tag, res.Msg = vt, msg
				for _, h := range hist {
					res.Hist = append(res.Hist, c.name(h))
				}
				return false
			}
			return true
		}
		for _, i := range append([]int(nil), out...) {
			if !rec(append(append([]int(nil), hist...), i)) {
				return false
			}
		}
		return true
	}
	rec(nil)
	return res
}

func schedConfigs(thorough bool) []cfg {
	var out []cfg
	out = append(out, expand(size{n: 1, targets: 1, maxLimit: 3, rev: true})...)
	out = append(out, expand(size{n: 2, targets: 2, maxLimit: 3, rev: true})...)
	out = append(out, expand(size{n: 3, targets: 3, maxLimit: 3, rev: true})...)
	for _, c := range expand(size{n: 3, targets: 2, maxLimit: 2}) {
		c.EmptyName = true
		out = append(out, c)
	}
	out = append(out, relisted(expand(size{n: 3, targets: 3, maxLimit: 2}))...)
	out = append(out, relisted(expand(size{n: 4, targets: 2, maxLimit: 1}))...)
	out = append(out, expand(size{n: 4, targets: 3, maxLimit: 2})...)
	for _, c := range expand(size{n: 4, targets: 2, maxLimit: 3}) {
		c.NamesRev = true
		out = append(out, c)
	}
	// more ready tasks than places, and more places
	out = append(out, expand(size{n: 5, targets: 1, maxLimit: 4})...)
	for _, c := range expand(size{n: 6, targets: 1, maxLimit: 4, every: 7}) {
		out = append(out, c)
	}
	if !thorough {
		return append(out, expand(size{n: 5, targets: 2, maxLimit: 2})...)
	}
	out = append(out, expand(size{n: 5, targets: 3, maxLimit: 3})...)
	return out
}
