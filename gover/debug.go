package main

import (
	"fmt"

	"verif.local/spec"
)

// cmdEval prints the term of a contract expression at the end of a root, per event binding "b".
func cmdEval(root, src string) error {
	P, set, clean, err := setup()
	defer clean()
	if err != nil {
		return err
	}
	e, err := spec.ParseExpr(src)
	if err != nil {
		return err
	}
	var cs []*spec.Contract
	for _, c := range set.Contracts {
		if c.Root == root {
			cs = append(cs, c)
		}
	}
	r, err := runRoot(P, set, root, len(cs) > 0 && cs[0].IsFunc, cs, loopSolve)
	if err != nil {
		return err
	}
	b := &symBackend{x: r.x, st: r.final}
	shown := false
	var evs map[string]bool = map[string]bool{}
	spec.Names(e, evs)
	for _, ev := range r.x.events {
		v, err := set.Eval(b, (*spec.Env)(nil).WithEvent("b", ev), e)
		if err != nil {
			continue
		}
		t, err := b.term(v)
		if err != nil {
			continue
		}
		fmt.Printf("b=%s#%d: %.1500s\n", ev.name, ev.num, t.Str())
		shown = true
	}
	if !shown {
		v, err := set.Eval(b, nil, e)
		if err != nil {
			return err
		}
		t, err := b.term(v)
		if err != nil {
			return err
		}
		fmt.Printf("%.3000s\n", t.Str())
	}
	return nil
}
