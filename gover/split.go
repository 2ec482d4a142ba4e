package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

// Strings are opaque to the solvers, so a text that is put together in one order of
// case distinction and concatenation is not seen to equal the same text put together
// in another. splitGoals retries undischarged goals case by case: under every decision
// of the conditions met inside texts the two become the same term.

const splitQueries = 150 // per goal

func splitGoals(gs []*Goal, per, total time.Duration) {
	end := time.Now().Add(total)
	for _, g := range gs {
		if g.cover || g.res == "unsat" || g.backend == "gover" || g.exec == nil || time.Now().After(end) {
			continue
		}
		s := &splitter{end: time.Now().Add(per), left: splitQueries}
		if end.Before(s.end) {
			s.end = end
		}
		var ts []*Term
		ts = append(ts, g.exec.facts...)
		ts = append(ts, g.prem...)
		ts = append(ts, mkNot(g.goal))
		if len(splitConds(ts[len(g.exec.facts):])) == 0 {
			continue
		}
		if s.refute(ts, len(g.exec.facts), nil, 0) {
			g.res = "unsat"
			g.backend = "z3 (by cases)"
		}
	}
}

type splitter struct {
	end  time.Time
	left int
}

// refute shows that ts (facts first, then what is relevant) is unsatisfiable.
func (s *splitter) refute(ts []*Term, nf int, lits []*Term, depth int) bool {
	if mkAnd(ts[nf:]...) == TFalse || mkAnd(lits...) == TFalse {
		return true
	}
	cs := splitConds(ts[nf:])
	if depth > 0 {
		if s.left--; s.left < 0 || time.Now().After(s.end) {
			return false
		}
		to := 10 * time.Second
		if len(cs) > 0 {
			to = 400 * time.Millisecond
		}
		a := runSolver("z3", buildQuery(append(append([]*Term{}, ts...), lits...), nil), to)
		if os.Getenv("GOVER_SPLIT") != "" {
			fmt.Println("SPLIT", depth, len(cs), a.res, a.dur)
		}
		if a.res == "unsat" {
			return true
		}
	}
	if len(cs) == 0 || depth > 40 {
		return false
	}
	c := cs[0]
	if os.Getenv("GOVER_SPLIT") != "" {
		fmt.Printf("SPLIT %d %d/%d %.160s\n", depth, s.left, len(cs), c.Str())
	}
	for _, v := range []*Term{TTrue, TFalse} {
		m := map[*Term]*Term{c: v}
		l := c
		if v == TFalse {
			l = mkNot(c)
		}
		if a, b, ok := isEq(c); v == TTrue && ok {
			switch {
			case isLiteral(b) && !isLiteral(a):
				m[a] = b
			case isLiteral(a) && !isLiteral(b):
				m[b] = a
			}
		}
		n := make([]*Term, len(ts))
		for i, t := range ts {
			n[i] = subst(t, m)
		}
		if !s.refute(n, nf, append(append([]*Term{}, lits...), l), depth+1) {
			return false
		}
	}
	return true
}

func isEq(c *Term) (a, b *Term, ok bool) {
	if c.op == "=" {
		return c.args[0], c.args[1], true
	}
	return nil, nil, false
}

// splitConds are the conditions on which parts of texts depend, outermost and most frequent first.
func splitConds(ts []*Term) []*Term {
	n := map[*Term]int{}
	depth := map[*Term]int{}
	seen := map[*Term]bool{}
	var walk func(t *Term, inText bool, d int)
	walk = func(t *Term, inText bool, d int) {
		key := t
		if seen[key] && !inText {
			return
		}
		seen[key] = true
		if t.op == "ite" && t.sort == SStr && inText {
			for _, a := range atoms(t.args[0]) {
				if a.hasB {
					continue
				}
				if n[a] == 0 || d < depth[a] {
					depth[a] = d
				}
				n[a]++
			}
		}
		text := t.op == "uf" || inText && t.op == "ite" && t.sort == SStr
		for i, a := range t.args {
			walk(a, text && a.sort == SStr && !(t.op == "ite" && i == 0), d+1)
		}
	}
	budget := 200000
	w := walk
	walk = func(t *Term, inText bool, d int) {
		if budget--; budget < 0 {
			return
		}
		w(t, inText, d)
	}
	for _, t := range ts {
		walk(t, false, 0)
	}
	var out []*Term
	for a := range n {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if ia, ib := intEq(a), intEq(b); ia != ib {
			return ib
		}
		if depth[a] != depth[b] {
			return depth[a] < depth[b]
		}
		return a.id < b.id
	})
	return out
}

func intEq(t *Term) bool {
	a, _, ok := isEq(t)
	return ok && a.sort == SInt
}

func atoms(t *Term) []*Term {
	switch t.op {
	case "and", "or", "not":
		var out []*Term
		for _, a := range t.args {
			out = append(out, atoms(a)...)
		}
		return out
	case "true", "false":
		return nil
	}
	return []*Term{t}
}
