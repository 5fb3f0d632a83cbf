//go:build go1.22

package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
)

// A dfa is the reference automaton of a definition form, over bytes.
// State -1 is the dead state: no valid definition continues from there.
type dfa struct {
	next   [][256]int16
	accept []bool
	access []string // a shortest word into each state, over plain characters
	finish []string // a shortest word from each state to acceptance
}

func compile(pattern string) *dfa {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		panic(err)
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(err)
	}
	closure := func(pcs []uint32, begin bool) (out []uint32, acc bool) {
		seen := map[uint32]bool{}
		var visit func(pc uint32)
		visit = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				visit(in.Out)
				visit(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				visit(in.Out)
			case syntax.InstEmptyWidth:
				switch syntax.EmptyOp(in.Arg) {
				case syntax.EmptyBeginText:
					if begin {
						visit(in.Out)
					}
				case syntax.EmptyEndText:
					if prog.Inst[in.Out].Op != syntax.InstMatch {
						// captures may lie between; follow them
						pc := in.Out
						for prog.Inst[pc].Op == syntax.InstCapture || prog.Inst[pc].Op == syntax.InstNop {
							pc = prog.Inst[pc].Out
						}
						if prog.Inst[pc].Op != syntax.InstMatch {
							panic("unexpected pattern")
						}
					}
					acc = true
				default:
					panic("unexpected assertion")
				}
			case syntax.InstMatch:
				acc = true
			case syntax.InstFail:
			default:
				out = append(out, pc)
			}
		}
		for _, pc := range pcs {
			visit(pc)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out, acc
	}
	d := &dfa{}
	ids := map[string]int16{}
	var sets [][]uint32
	add := func(set []uint32, acc bool, access string) int16 {
		if len(set) == 0 && !acc {
			return -1
		}
		k := fmt.Sprint(set, acc)
		if i, ok := ids[k]; ok {
			return i
		}
		i := int16(len(sets))
		ids[k] = i
		sets = append(sets, set)
		d.accept = append(d.accept, acc)
		d.access = append(d.access, access)
		d.next = append(d.next, [256]int16{})
		return i
	}
	s0, a0 := closure([]uint32{uint32(prog.Start)}, true)
	add(s0, a0, "")
	order := []int{}
	for _, c := range " (),abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789" {
		order = append(order, int(c))
	}
	for c := 0; c < 256; c++ {
		order = append(order, c)
	}
	for i := 0; i < len(sets); i++ {
		for _, c := range order {
			var to []uint32
			for _, pc := range sets[i] {
				if prog.Inst[pc].MatchRune(rune(c)) {
					to = append(to, prog.Inst[pc].Out)
				}
			}
			set, acc := closure(to, false)
			d.next[i][c] = add(set, acc, d.access[i]+string([]byte{byte(c)}))
		}
	}
	d.minimize()
	// shortest way to acceptance
	n := len(d.next)
	d.finish = make([]string, n)
	done := make([]bool, n)
	for i := range done {
		done[i] = d.accept[i]
	}
	for changed := true; changed; {
		changed = false
		var newly []int
		for i := range d.next {
			if done[i] {
				continue
			}
			for _, c := range order {
				if t := d.next[i][c]; t >= 0 && done[t] {
					d.finish[i] = string([]byte{byte(c)}) + d.finish[t]
					newly = append(newly, i)
					break
				}
			}
		}
		for _, i := range newly {
			done[i], changed = true, true
		}
	}
	for i := range done {
		if !done[i] {
			panic("a reference state cannot reach acceptance")
		}
	}
	return d
}

// minimize merges equivalent states (Moore).
func (d *dfa) minimize() {
	n := len(d.next)
	class := make([]int, n)
	for i := range class {
		if d.accept[i] {
			class[i] = 1
		}
	}
	k := 0
	for {
		ids := map[string]int{}
		nc := make([]int, n)
		for i := range class {
			b := make([]byte, 0, 520)
			b = append(b, byte(class[i]), byte(class[i]>>8))
			for c := 0; c < 256; c++ {
				t := 0xffff
				if d.next[i][c] >= 0 {
					t = class[d.next[i][c]]
				}
				b = append(b, byte(t), byte(t>>8))
			}
			id, ok := ids[string(b)]
			if !ok {
				id = len(ids)
				ids[string(b)] = id
			}
			nc[i] = id
		}
		class = nc
		if len(ids) == k {
			break
		}
		k = len(ids)
	}
	m := &dfa{next: make([][256]int16, k), accept: make([]bool, k), access: make([]string, k)}
	set := make([]bool, k)
	for i := 0; i < n; i++ {
		c := class[i]
		if !set[c] {
			set[c] = true
			m.access[c], m.accept[c] = d.access[i], d.accept[i]
			for b := 0; b < 256; b++ {
				m.next[c][b] = -1
				if d.next[i][b] >= 0 {
					m.next[c][b] = int16(class[d.next[i][b]])
				}
			}
		}
	}
	*d = *m
}

// run returns where no valid definition continues (or len(s)), and whether
// s is one.
func (d *dfa) run(s string) (int, bool) {
	q := int16(0)
	for i := 0; i < len(s); i++ {
		if q = d.next[q][s[i]]; q < 0 {
			return i, false
		}
	}
	return len(s), d.accept[q]
}

// characterize returns words that tell every two states apart by acceptance.
func (d *dfa) characterize() []string {
	n := len(d.next)
	words := []string{""}
	for i := 0; i < n; i++ {
		if f := d.finish[i]; f != "" {
			words = append(words, f)
		}
	}
	sortUniq(&words)
	// keep only words that split further, then split what is left
	class := make([]int, n)
	nclass := 1
	var keep []string
	split := func(w string) {
		ids := map[[2]int]int{}
		nc := make([]int, n)
		for i := range class {
			a := 0
			if q, ok := d.from(i, w); ok && d.accept[q] {
				a = 1
			}
			k := [2]int{class[i], a}
			if _, ok := ids[k]; !ok {
				ids[k] = len(ids)
			}
			nc[i] = ids[k]
		}
		if len(ids) > nclass {
			nclass, class = len(ids), nc
			keep = append(keep, w)
		}
	}
	for _, w := range words {
		split(w)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if class[i] == class[j] {
				split(d.distinguish(i, j))
			}
		}
	}
	if nclass != n {
		panic("characterization failed")
	}
	return keep
}

func (d *dfa) from(q int, w string) (int, bool) {
	for i := 0; i < len(w); i++ {
		t := d.next[q][w[i]]
		if t < 0 {
			return -1, false
		}
		q = int(t)
	}
	return q, true
}

func (d *dfa) distinguish(a, b int) string {
	type pair [2]int
	seen := map[pair]string{{a, b}: ""}
	q := []pair{{a, b}}
	acc := func(x int) bool { return x >= 0 && d.accept[x] }
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		if acc(p[0]) != acc(p[1]) {
			return seen[p]
		}
		for c := 0; c < 256; c++ {
			t := pair{-1, -1}
			for k := range p {
				if p[k] >= 0 {
					t[k] = int(d.next[p[k]][c])
				}
			}
			if _, ok := seen[t]; !ok && t[0] != t[1] {
				seen[t] = seen[p] + string([]byte{byte(c)})
				q = append(q, t)
			}
		}
	}
	panic("states are equivalent")
}

func sortUniq(w *[]string) {
	sort.Slice(*w, func(i, j int) bool {
		return len((*w)[i]) < len((*w)[j]) || len((*w)[i]) == len((*w)[j]) && (*w)[i] < (*w)[j]
	})
	out := (*w)[:0]
	for i, s := range *w {
		if i == 0 || s != (*w)[i-1] {
			out = append(out, s)
		}
	}
	*w = out
}
