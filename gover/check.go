package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/spec"
)

// provenRoot is what one root contributes to a check.
type provenRoot struct {
	Root    string   `json:"root"`
	Kind    string   `json:"kind"` // property or callee
	Clauses int      `json:"obligations"`
	Bodies  []string `json:"bodies_executed"`
	ExecMS  int64    `json:"exec_ms"`
}

type checkRun struct {
	prop    string
	P       *Program
	set     *spec.Set
	roots   []*provenRoot
	runs    map[string]*rootRun
	goals   []*Goal
	used    map[string]int
	skipped []string
	// callees executed through their bodies because their contract was not established
	inlineFuncs []string
	start       time.Time
	stuck       bool // a runaway execution still holds the term tables
}

// propKinds are the execution obligations that belong to a property besides its
// clauses. A function or rendering whose result a property describes must also
// return; whether the endpoints and grant handlers can panic is property C25.
func (c *checkRun) propKinds(root string, isFunc bool) map[string]bool {
	m := map[string]bool{"unsupported": true, "requires": true}
	if c.prop == "C25" || isFunc || !c.serves(root) {
		m["panic"] = true
	}
	return m
}

// serves tells whether a root serves requests, that is, has a contract for C25.
func (c *checkRun) serves(root string) bool {
	for _, k := range c.set.ForProp("C25") {
		if k.Root == root {
			return true
		}
	}
	return false
}

// deadline is when a check must have its answer; solving stops before.
var deadline time.Time

func remaining() time.Duration {
	if deadline.IsZero() {
		return time.Hour
	}
	return time.Until(deadline)
}

// guarded executes a root and generates its obligations; a failure inside the
// verifier or an exhausted budget comes back as an error.
func (c *checkRun) guarded(root string, cs []*spec.Contract) (*rootRun, []*Goal, error) {
	type out struct {
		r   *rootRun
		gs  []*Goal
		err error
	}
	ch := make(chan out, 1)
	go func() {
		var o out
		defer func() {
			if e := recover(); e != nil {
				o.err = fmt.Errorf("verifier failed: %v", e)
			}
			ch <- o
		}()
		r, err := runRoot(c.P, c.set, root, cs[0].IsFunc, cs, loopSolve)
		if err != nil {
			o.err = err
			return
		}
		gs := r.goals(cs)
		gs = append(gs, r.safety(c.propKinds(root, cs[0].IsFunc))...)
		gs = append(gs, r.special(c.prop)...)
		o.r, o.gs = r, gs
	}()
	left := remaining()
	if left < time.Second {
		left = time.Second
	}
	select {
	case o := <-ch:
		return o.r, o.gs, o.err
	case <-time.After(left):
		c.stuck = true
		return nil, nil, fmt.Errorf("verifier did not finish executing %s in time", root)
	}
}

func (c *checkRun) run(root string, cs []*spec.Contract, kind string) error {
	if len(cs) == 0 {
		return nil
	}
	t0 := time.Now()
	if cs[0].IsFunc && c.P.findFunc(root) == nil {
		last := root[strings.LastIndexByte(root, '.')+1:]
		if last != "" && last[0] >= 'a' && last[0] <= 'z' {
			c.skipped = append(c.skipped, root)
			return nil
		}
	}
	r, gs, err := c.guarded(root, cs)
	if err != nil {
		// the verifier could not execute the root: nothing about it is proved
		c.runs[root] = &rootRun{name: root, x: newExec(c.P, c.set)}
		c.roots = append(c.roots, &provenRoot{Root: root, Kind: kind, Clauses: 1, ExecMS: time.Since(t0).Milliseconds()})
		c.goals = append(c.goals, &Goal{id: root + ".execution", kind: "unsupported", what: err.Error(), goal: TFalse, exec: c.runs[root].x, res: "unknown", backend: "gover", root: root})
		return nil
	}
	c.runs[root] = r
	pr := &provenRoot{Root: root, Kind: kind, Clauses: len(gs), ExecMS: time.Since(t0).Milliseconds()}
	for f := range r.x.inlined {
		pr.Bodies = append(pr.Bodies, f)
	}
	sort.Strings(pr.Bodies)
	c.roots = append(c.roots, pr)
	for _, g := range gs {
		g.root = root
	}
	c.goals = append(c.goals, gs...)
	for k, n := range r.x.used {
		c.used[k] += n
	}
	// contracts assumed at calls are proved as part of this check
	var cal []string
	for n := range r.x.callees {
		cal = append(cal, n)
	}
	sort.Strings(cal)
	for _, n := range cal {
		if c.runs[n] != nil {
			continue
		}
		var fc []*spec.Contract
		for _, d := range c.set.Contracts {
			if d.IsFunc && d.Root == n {
				fc = append(fc, d)
			}
		}
		if err := c.run(n, fc, "callee"); err != nil {
			return err
		}
	}
	return nil
}

// special are property-wide obligations over everything that ran.
func (r *rootRun) special(prop string) []*Goal {
	switch prop {
	case "C26":
		return r.frame()
	case "C27":
		return r.leaks()
	}
	return nil
}

// frame demands that everything written was allocated while serving, except the
// response's headers and the headers of the request (which a clause restricts).
func (r *rootRun) frame() []*Goal {
	x := r.x
	byTarget := map[string][]*Write{}
	var order []string
	for _, w := range x.writes {
		if w.ref.op == "uf" && w.ref.s == "whdr" {
			continue
		}
		if (w.key == "HDR:p" || w.key == "HDR:v") && x.rootVars["r"] != nil && w.ref == x.reqHdr(x.st0) {
			continue
		}
		k := w.key + " of " + clipS(w.ref.Str(), 200)
		if byTarget[k] == nil {
			order = append(order, k)
		}
		byTarget[k] = append(byTarget[k], w)
	}
	sort.Strings(order)
	var out []*Goal
	for i, k := range order {
		ws := byTarget[k]
		var gs []*Term
		for _, w := range ws {
			gs = append(gs, w.guard)
		}
		out = append(out, &Goal{id: fmt.Sprintf("%s.frame%d", r.name, i+1), kind: "frame", what: "writes shared memory: " + k, where: ws[0].where,
			prem: []*Term{mkOr(gs...)}, goal: TFalse, exec: x})
	}
	// objects handed back to the endpoint are new
	if strings.HasPrefix(r.name, "Grant") && len(r.res) > 0 {
		for _, l := range leavesOf(r.res[len(r.res)-1]) {
			if l.t == TNil || l.t.op == "lit" && x.ownAlloc[l.t] {
				continue
			}
			out = append(out, &Goal{id: r.name + ".freshError", kind: "frame", what: "the error returned is not a new object: " + clipS(l.t.Str(), 200), prem: []*Term{r.final.pc, l.g}, goal: TFalse, exec: x})
		}
	}
	if len(out) == 0 {
		out = append(out, &Goal{id: r.name + ".frame", kind: "frame", what: fmt.Sprintf("%d writes, all to memory allocated by the request or to response headers", x.nWrites), goal: TTrue, exec: x})
	}
	return out
}

func passed(g *Goal) bool {
	if g.cover {
		return g.res != "unsat" && g.res != "error"
	}
	return g.res == "unsat"
}

type finding struct{ prop, obl, text string }

// loadFindings reads the committed list of findings that are recorded, not repaired.
func loadFindings(path string) ([]finding, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		fs := strings.Fields(strings.TrimPrefix(l, "finding:"))
		if len(fs) < 3 || !strings.HasPrefix(fs[0], "property=") || !strings.HasPrefix(fs[1], "obligation=") {
			return nil, fmt.Errorf("%s: bad line %q", path, l)
		}
		r = append(r, finding{fs[0][9:], fs[1][11:], strings.Join(fs[2:], " ")})
	}
	return r, sc.Err()
}

func newCheckRun(t0 time.Time, prop string, P *Program, set *spec.Set, tier string, inline []string) (*checkRun, error) {
	c := &checkRun{start: t0, prop: prop, P: P, set: set, runs: map[string]*rootRun{}, used: map[string]int{}, inlineFuncs: inline}
	for _, k := range set.Contracts {
		k.Ignore = false
		for _, n := range inline {
			if k.IsFunc && k.Root == n {
				k.Ignore = true
			}
		}
	}
	roots := map[string][]*spec.Contract{}
	var order []string
	for _, k := range set.ForProp(prop) {
		if roots[k.Root] == nil {
			order = append(order, k.Root)
		}
		roots[k.Root] = append(roots[k.Root], k)
	}
	if len(order) == 0 {
		return nil, fmt.Errorf("no contract for %s", prop)
	}
	for _, n := range order {
		if c.runs[n] == nil {
			if err := c.run(n, roots[n], "property"); err != nil {
				return nil, err
			}
		}
	}
	to := 30 * time.Second
	if tier == "thorough" {
		to = 120 * time.Second
	}
	if c.stuck {
		for _, g := range c.goals {
			if g.res == "" {
				g.res, g.backend = "unknown", "none"
			}
		}
	} else {
		solveGoals(c.goals, to)
		splitGoals(c.goals, 20*time.Second, 60*time.Second)
	}
	return c, nil
}

// brokenCallees are the functions whose contract was assumed at calls but whose own
// obligations failed.
func (c *checkRun) brokenCallees() []string {
	kind := map[string]string{}
	for _, r := range c.roots {
		kind[r.Root] = r.Kind
	}
	bad := map[string]bool{}
	for _, g := range c.goals {
		if !g.cover && !passed(g) && g.root != "" && kind[g.root] == "callee" {
			bad[g.root] = true
		}
	}
	var l []string
	for n := range bad {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func cmdCheck(prop string) (int, error) {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	finds, err := loadFindings(filepath.Join(*flagVerif, "known-findings.txt"))
	if err != nil {
		return 2, err
	}
	if tier == "thorough" {
		deadline = t0.Add(3 * time.Hour)
	} else {
		deadline = t0.Add(9 * time.Minute)
	}
	P, set, clean, err := setup()
	defer clean()
	if err != nil {
		return 2, err
	}
	c, err := newCheckRun(t0, prop, P, set, tier, nil)
	if err != nil {
		return 2, err
	}
	// A callee whose contract does not hold any more is not part of the proof: its
	// callers are executed through its body instead.
	if drop := c.brokenCallees(); len(drop) > 0 && !c.stuck && remaining() > 3*time.Since(t0) {
		fmt.Printf("contract of %s not established: callers verified through the body\n", strings.Join(drop, ", "))
		if c, err = newCheckRun(t0, prop, P, set, tier, drop); err != nil {
			return 2, err
		}
	}
	var bad, known []*Goal
	isKnown := map[*Goal]string{}
	byBackend := map[string]int{}
	obls, disch, covers, coversOK, twice := 0, 0, 0, 0, 0
	for _, g := range c.goals {
		ok := passed(g)
		if g.cover {
			covers++
			if ok {
				coversOK++
			}
		} else {
			obls++
			if ok {
				disch++
				byBackend[g.backend]++
			}
		}
		if ok {
			continue
		}
		for _, f := range finds {
			if f.prop == prop && (f.obl == g.id || f.obl == strings.SplitN(g.id, "/", 2)[0]) {
				isKnown[g] = f.text
			}
		}
		if isKnown[g] != "" {
			known = append(known, g)
		} else {
			bad = append(bad, g)
		}
	}
	if tier == "thorough" {
		twice = crossCheck(c.goals, 30*time.Second)
	}
	shown := map[string]bool{}
	for _, g := range known {
		if !shown[isKnown[g]] {
			shown[isKnown[g]] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s (obligation %s)\n", prop, isKnown[g], g.id)
		}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof"}
	var assumptions []string
	for k := range c.used {
		assumptions = append(assumptions, k)
	}
	sort.Strings(assumptions)
	bodies := map[string]bool{}
	for _, r := range c.roots {
		for _, b := range r.Bodies {
			if !strings.HasPrefix(b, rootsPkg) {
				bodies[b] = true
			}
		}
	}
	var bodyList []string
	for b := range bodies {
		bodyList = append(bodyList, b)
	}
	sort.Strings(bodyList)
	solver := map[string]any{}
	for k, n := range solveN {
		solver[k] = map[string]any{"queries": n, "seconds": round2(solveDur[k])}
	}
	var names []string
	for _, g := range c.goals {
		names = append(names, g.id)
	}
	trivial := 0
	for _, r := range c.runs {
		trivial += r.x.simpPanics
	}
	cov := map[string]any{
		"obligations": obls - len(known), "discharged": disch,
		"checker_cmd":  "./check " + prop,
		"trusted_base": trustedBase, "roots": c.roots, "functions_verified": bodyList,
		"discharged_by": byBackend, "runtime_checks_trivially_true": trivial, "solver": solver, "vacuity_covers": covers, "vacuity_covers_satisfiable": coversOK,
		"obligation_names": names,
	}
	if usesWords() {
		cov["lemmas_on_words"] = proveWords()
	}
	if len(known) > 0 {
		var ks []string
		for _, g := range known {
			ks = append(ks, g.id)
		}
		cov["known_findings_excluded"] = ks
	}
	if tier == "thorough" {
		cov["rechecked_by_second_solver"] = twice
	}
	if len(c.inlineFuncs) > 0 {
		cov["contracts_not_established"] = c.inlineFuncs
	}
	if len(c.skipped) > 0 {
		cov["contracts_without_function"] = c.skipped
	}
	ev["coverage"] = cov
	ev["assumptions"] = assumptions
	ev["violations"] = len(bad)
	code := 0
	rdir := filepath.Join(*flagVerif, "evidence", "replay")
	if tier == "thorough" && len(bad) == 0 {
		// the contracts against the running code: a bounded search, never counted as proof
		if r, err := newReplayer(c, excluded(prop, finds)); err != nil {
			cov["bounded_search"] = err.Error()
		} else {
			f, n, extra := r.search(int64(seed)*1000+1, 300, true)
			r.close()
			cov["bounded_search"] = map[string]any{"runs": n, "clauses": extra, "note": "random runs of the real functions judged by the same contracts; bounded, not part of the proof"}
			if f != nil {
				bad = append(bad, &Goal{id: "search", kind: "run", what: "a run contradicts a contract whose obligations were discharged", goal: TFalse, res: "run", backend: "replay"})
			}
		}
	}
	os.RemoveAll(filepath.Join(rdir, prop))
	if len(bad) > 0 {
		code = 1
		c.report(prop, bad, filepath.Join(rdir, prop), finds, int64(seed))
	}
	ev["wall_s"] = round2(time.Since(t0))
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*flagVerif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		return 2, err
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d covers, %d known, %d failed, %.1fs\n", prop, obls, disch, covers, len(known), len(bad), time.Since(t0).Seconds())
	return code, nil
}

func round2(d time.Duration) float64 {
	f, _ := strconv.ParseFloat(strconv.FormatFloat(d.Seconds(), 'f', 2, 64), 64)
	return f
}

// usesWords reports that a goal of this run needed the theory of texts as lists of words.
func usesWords() bool {
	for _, t := range termList {
		if t.op == "uf" && (listFns[t.s] || t.s == "cutafter") {
			return true
		}
	}
	return false
}

var leanTheorem = regexp.MustCompile(`(?m)^theorem (\w+)`)

// proveWords has Lean check the lemmas on lists of words that the simplifier applies.
func proveWords() map[string]any {
	file := filepath.Join(*flagVerif, "theory", "Words.lean")
	src, err := os.ReadFile(file)
	if err != nil {
		return map[string]any{"proved": false, "note": "trusted: " + err.Error()}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	t0 := time.Now()
	out, err := exec.CommandContext(ctx, "lean", file).CombinedOutput()
	if err != nil || strings.Contains(string(out), "sorry") {
		return map[string]any{"proved": false, "note": "trusted: Lean did not accept theory/Words.lean in this run"}
	}
	var names []string
	for _, m := range leanTheorem.FindAllStringSubmatch(string(src), -1) {
		names = append(names, m[1])
	}
	return map[string]any{"proved": true, "by": "lean", "theorems": names, "seconds": round2(time.Since(t0))}
}

var trustedBase = []string{
	"gover: translation of Go (go/types + golang.org/x/tools/go/ssa of the current /repo sources) into verification conditions, /verif/gover",
	"Z3 and cvc5: a goal counts as discharged when one of them answers unsat to its negation",
	"contracts on functions outside the repository (standard library, golang-jwt, go-querystring) and on the bridge interfaces: listed under assumptions when used",
	"the Go compiler and go/ssa agree on the meaning of the program",
	"machine integers are treated as mathematical integers; strings as values of an uninterpreted sort with the axioms of gover/smt.go (those on lists of words are proved in theory/Words.lean, all are tested in gover/simp_test.go)",
}

// report writes a replay file per failed obligation and one VIOLATION line.
func (c *checkRun) report(prop string, bad []*Goal, dir string, finds []finding, seed int64) {
	os.MkdirAll(dir, 0o755)
	var failed []map[string]any
	for _, g := range bad {
		m := map[string]any{"obligation": g.id, "kind": g.kind, "what": g.what, "solver": g.backend, "answer": g.res}
		if g.where != "" {
			m["where"] = g.where
		}
		if g.clause != nil && g.clause.E != nil {
			m["contract"] = g.clause.E.String()
		}
		m["goal"] = clipS(g.goal.Str(), 4000)
		if g.res == "error" {
			m["output"] = clipS(g.raw, 2000)
		}
		failed = append(failed, m)
		fmt.Printf("FAILED obligation %s (%s, %s) %s %s\n", g.id, g.res, g.backend, g.what, g.where)
	}
	path := filepath.Join(dir, "failed.json")
	out := map[string]any{"property": prop, "failed": failed}
	suffix := " no-failing-input-found"
	secs := 45.0
	if left := time.Until(c.start.Add(11 * time.Minute)).Seconds(); left < secs {
		secs = left
	}
	if r, err := newReplayer(c, excluded(prop, finds)); err != nil {
		out["search"] = err.Error()
	} else {
		f, n, extra := r.search(seed*1000+1, secs, false)
		r.close()
		out["search"] = fmt.Sprintf("%d runs of the real functions", n)
		if len(extra) > 0 {
			out["search_output"] = extra
		}
		if f != nil {
			var v map[string]any
			if json.Unmarshal(f, &v) == nil {
				suffix = ""
				out["found"] = v
				out["search"] = "a run of the real functions contradicts the contract; ./replay FILE runs it again"
				what := v["what"]
				if what == nil {
					what = v["contract"]
				}
				fmt.Printf("REPLAYED %v.%v: %s\n", v["root"], v["clause"], clipS(fmt.Sprint(what), 300))
			}
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// crossCheck asks the other solver about every discharged obligation.
func crossCheck(gs []*Goal, to time.Duration) int {
	n := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, g := range gs {
		if g.cover || g.res != "unsat" || g.q == nil {
			continue
		}
		wg.Add(1)
		go func(g *Goal) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			b := "cvc5"
			if g.backend == "cvc5" {
				b = "z3"
			}
			if a := runSolver(b, g.q, to); a.res == "unsat" {
				mu.Lock()
				n++
				mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	return n
}
