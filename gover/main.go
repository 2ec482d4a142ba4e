package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/spec"
)

var (
	flagRepo  = flag.String("repo", "/repo", "repository under proof")
	flagVerif = flag.String("verif", "/verif", "verification directory")
	flagV     = flag.Bool("v", false, "verbose")
	flagTO    = flag.Int("t", 20, "solver timeout, seconds")
	flagRoot  = flag.String("root", "", "only this root")
)

func toolEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gover [flags] prove PROP | dump ROOT | externs")
		os.Exit(2)
	}
	var err error
	switch args[0] {
	case "prove":
		err = cmdProve(args[1])
	case "check":
		code, e := cmdCheck(args[1])
		if e != nil {
			fmt.Fprintln(os.Stderr, "gover:", e)
		}
		os.Exit(code)
	case "search":
		secs, _ := strconv.ParseFloat(args[2], 64)
		code, e := cmdSearch(args[1], secs, time.Now().UnixNano()%1000000)
		if e != nil {
			fmt.Fprintln(os.Stderr, "gover:", e)
		}
		os.Exit(code)
	case "replay":
		code, e := cmdReplay(args[1])
		if e != nil {
			fmt.Fprintln(os.Stderr, "gover:", e)
		}
		os.Exit(code)
	case "eval":
		err = cmdEval(args[1], args[2])
	case "consts":
		err = cmdConsts()
	case "dump":
		err = cmdDump(args[1])
	default:
		err = fmt.Errorf("unknown command %s", args[0])
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(2)
	}
}

func setup() (*Program, *spec.Set, func(), error) {
	dir, err := os.MkdirTemp("", "gover")
	if err != nil {
		return nil, nil, nil, err
	}
	clean := func() { os.RemoveAll(dir) }
	mf, err := prepareModfile(*flagRepo, *flagVerif, dir)
	if err != nil {
		return nil, nil, clean, err
	}
	set, err := spec.Load(filepath.Join(*flagVerif, "contracts"))
	if err != nil {
		return nil, nil, clean, err
	}
	P, err := loadRepo(*flagRepo, *flagVerif, mf, toolEnv())
	if err != nil {
		return nil, nil, clean, err
	}
	P.noteTypes()
	return P, set, clean, nil
}

// loopSolve answers the small queries of invariant inference.
func loopSolve(ts []*Term) bool {
	q := buildQuery(ts, nil)
	return runSolver("z3", q, 5*time.Second).res == "unsat"
}

func cmdDump(root string) error {
	P, set, clean, err := setup()
	defer clean()
	if err != nil {
		return err
	}
	var cs []*spec.Contract
	for _, c := range set.Contracts {
		if c.Root == root {
			cs = append(cs, c)
		}
	}
	t0 := time.Now()
	r, err := runRoot(P, set, root, strings.Contains(root, "."), cs, loopSolve)
	if err != nil {
		return err
	}
	fmt.Printf("executed in %v: %d events, %d facts, %d obligations, %d writes\n", time.Since(t0), len(r.x.events), len(r.x.facts), len(r.x.obls), len(r.x.writes))
	for _, e := range r.x.events {
		fmt.Printf("EVENT %s #%d at %s\n   guard %.300s\n", e.name, e.num, e.where, e.guard.Str())
		for k, v := range e.fields {
			switch t := v.(type) {
			case *Term:
				fmt.Printf("   %s = %.200s\n", k, t.Str())
			case *TV:
				for _, q := range t.v {
					fmt.Printf("   %s : %.200s\n", k, q.Str())
				}
			}
		}
	}
	for _, o := range r.x.obls {
		fmt.Printf("OBL %s %s %s\n    %.300s\n", o.kind, o.name, o.where, o.guard.Str())
	}
	for _, w := range r.x.writes {
		fmt.Printf("WRITE %s %s at %s\n", w.key, w.ref.Str(), w.where)
	}
	for i, t := range r.res {
		fmt.Printf("RES%d %.400s\n", i, t.Str())
	}
	fmt.Printf("PC %.600s\n", r.final.pc.Str())
	var us []string
	for u := range r.x.used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Println("USES", u)
	}
	return nil
}

// solveGoals decides goals in parallel.
func solveGoals(gs []*Goal, timeout time.Duration) {
	type job struct {
		g *Goal
		q *query
	}
	var jobs []*job
	for _, g := range gs {
		if g.res != "" {
			continue
		}
		var ts []*Term
		ts = append(ts, g.exec.facts...)
		ts = append(ts, g.prem...)
		if g.cover {
			ts = append(ts, g.goal)
		} else {
			ts = append(ts, mkNot(g.goal))
		}
		all := mkAnd(append(append([]*Term{}, g.prem...), ts[len(ts)-1])...)
		if all == TFalse {
			g.res, g.backend = "unsat", "simplifier"
			continue
		}
		g.q = buildQuery(ts, nil)
		jobs = append(jobs, &job{g, g.q})
	}
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if j.g.cover {
				// a cover only has to be not refuted; models of quantified facts are slow to find
				a := runSolver("z3", j.q, min(timeout, 5*time.Second))
				j.g.res, j.g.backend, j.g.raw = a.res, a.backend, a.raw
				return
			}
			a := runSolver("z3", j.q, timeout)
			if a.res != "unsat" && a.res != "sat" {
				if b := runSolver("cvc5", j.q, timeout); b.res == "unsat" || b.res == "sat" {
					a = b
				}
			}
			j.g.res, j.g.backend, j.g.raw = a.res, a.backend, a.raw
		}(j)
	}
	wg.Wait()
}

func cmdProve(prop string) error {
	P, set, clean, err := setup()
	defer clean()
	if err != nil {
		return err
	}
	roots := map[string][]*spec.Contract{}
	var order []string
	for _, c := range set.ForProp(prop) {
		if *flagRoot != "" && c.Root != *flagRoot {
			continue
		}
		if roots[c.Root] == nil {
			order = append(order, c.Root)
		}
		roots[c.Root] = append(roots[c.Root], c)
	}
	var all []*Goal
	for _, n := range order {
		t0 := time.Now()
		r, err := runRoot(P, set, n, roots[n][0].IsFunc, roots[n], loopSolve)
		if err != nil {
			return err
		}
		gs := r.goals(roots[n])
		gs = append(gs, r.safety((&checkRun{prop: prop, set: set}).propKinds(n, roots[n][0].IsFunc))...)
		gs = append(gs, r.special(prop)...)
		fmt.Printf("%s: executed in %v, %d goals\n", n, time.Since(t0), len(gs))
		all = append(all, gs...)
	}
	solveGoals(all, time.Duration(*flagTO)*time.Second)
	splitGoals(all, 20*time.Second, 60*time.Second)
	bad := 0
	for _, g := range all {
		ok := g.res == "unsat"
		if g.cover {
			ok = g.res != "unsat"
		}
		if !ok {
			bad++
		}
		if !ok || *flagV {
			fmt.Printf("%-8s %-8s %s (%s) %s %s\n", map[bool]string{true: "ok", false: "FAIL"}[ok], g.res, g.id, g.backend, g.what, g.where)
			if g.res == "error" {
				fmt.Printf("%.2000s\n", g.raw)
			}
			if !ok && *flagV {
				fmt.Printf("   goal %.600s\n", g.goal.Str())
			}
		}
	}
	fmt.Printf("%d goals, %d failed\n", len(all), bad)
	return nil
}
