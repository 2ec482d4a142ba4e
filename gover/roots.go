package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif.local/spec"
)

const rootsPkg = "zz_verif_roots"

// Goal is one proof obligation.
type Goal struct {
	id     string // stable name
	root   string // what was executed
	kind   string // clause, panic, requires, unsupported, cover, frame, leak
	what   string
	where  string
	prem   []*Term // assumptions besides the facts
	goal   *Term
	cover  bool // satisfiable is good
	clause *spec.Clause
	exec   *Exec

	q       *query
	res     string
	backend string
	model   map[*Term]string
	raw     string
}

// rootRun is the symbolic execution of one root.
type rootRun struct {
	name  string
	x     *Exec
	fn    *ssa.Function
	final *State
	res   Val
	env   *spec.Env
}

func (p *Program) findFunc(name string) *ssa.Function {
	for sp, pkg := range p.pkgs {
		if !strings.HasPrefix(name, sp+".") {
			continue
		}
		rest := name[len(sp)+1:]
		if f := pkg.Func(rest); f != nil {
			return f
		}
		if i := strings.IndexByte(rest, '.'); i > 0 {
			if t := pkg.Type(rest[:i]); t != nil {
				for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if s := p.prog.MethodSets.MethodSet(rt).Lookup(pkg.Pkg, rest[i+1:]); s != nil {
						f := p.prog.MethodValue(s)
						if f != nil && f.Synthetic == "" {
							return f
						}
					}
				}
			}
		}
	}
	return nil
}

// initGlobals runs the package initialisers.
func (x *Exec) initGlobals(st *State) *State {
	x.use("package initialisers run once, in dependency order, before any other code")
	done := map[*types.Package]bool{}
	byPath := map[string]*ssa.Package{}
	for _, p := range x.P.pkgs {
		byPath[p.Pkg.Path()] = p
	}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := byPath[p.Path()]; sp != nil {
			order = append(order, sp)
		}
	}
	var names []string
	for n := range x.P.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		visit(x.P.pkgs[n].Pkg)
	}
	for _, p := range order {
		for _, n := range sortedMembers(p) {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				t := derefType(g.Type())
				x.store(st, x.globalRef(g), t, zeroVal(t))
			}
		}
	}
	for _, p := range order {
		if f := p.Func("init"); f != nil && len(f.Blocks) > 0 {
			_, st = x.inline(f, nil, nil, st)
		}
	}
	// variables that other code assigns hold arbitrary values
	for _, g := range x.P.assignedGlobals() {
		t := derefType(g.Type())
		x.store(st, x.globalRef(g), t, x.fresh("var:"+g.Name(), t))
		x.use("package variable " + shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name() + ": assigned outside initialisation, arbitrary value")
	}
	return st
}

func sortedMembers(p *ssa.Package) []string {
	var r []string
	for n := range p.Members {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// assignedGlobals lists package variables stored to outside initialisers.
func (p *Program) assignedGlobals() []*ssa.Global {
	m := map[*ssa.Global]bool{}
	for _, f := range p.allFuncs() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Pkg == nil || strings.HasSuffix(f.Pkg.Pkg.Path(), rootsPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g := baseGlobal(s.Addr); g != nil {
					m[g] = true
				}
			}
		}
	}
	var r []*ssa.Global
	for g := range m {
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func baseGlobal(v ssa.Value) *ssa.Global {
	for {
		switch t := v.(type) {
		case *ssa.Global:
			return t
		case *ssa.FieldAddr:
			v = t.X
		case *ssa.IndexAddr:
			v = t.X
		default:
			return nil
		}
	}
}

// allFuncs lists every function of the repository with a body.
func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pkg := p.pkgs[n]
		for _, m := range sortedMembers(pkg) {
			switch t := pkg.Members[m].(type) {
			case *ssa.Function:
				add(t)
			case *ssa.Type:
				for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := p.prog.MethodSets.MethodSet(rt)
					for i := 0; i < ms.Len(); i++ {
						if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

// noteTypes makes every named type of the repository known by name.
func (p *Program) noteTypes() {
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, b := range []types.BasicKind{types.String, types.Int, types.Int64, types.Bool, types.Float64} {
		noteType(types.Typ[b])
	}
	for _, n := range names {
		sc := p.pkgs[n].Pkg.Scope()
		for _, m := range sc.Names() {
			if tn, ok := sc.Lookup(m).(*types.TypeName); ok {
				noteType(tn.Type())
				noteType(types.NewPointer(tn.Type()))
			}
		}
	}
}

// runRoot executes a root for all inputs.
func runRoot(P *Program, set *spec.Set, root string, isFunc bool, cs []*spec.Contract, solve func(ts []*Term) bool) (*rootRun, error) {
	x := newExec(P, set)
	x.solve = solve
	x.rootName = root
	name := root
	if isFunc {
		x.noCall = root
	} else {
		name = rootsPkg + "." + root
		if strings.HasPrefix(root, "Respond") {
			x.noCall = "authorization.ResponseHandlerForMode"
		}
	}
	fn := P.findFunc(name)
	if fn == nil {
		return nil, fmt.Errorf("function %s not found", name)
	}
	merged := &spec.Contract{Root: root, IsFunc: isFunc, Flags: map[string]bool{}}
	for _, c := range cs {
		merged.Clauses = append(merged.Clauses, c.Clauses...)
	}
	x.rootC = merged
	st := x.initGlobals(&State{TTrue, map[string]*Term{}})
	x.events, x.obls, x.unsup, x.writes = nil, nil, nil, nil
	x.evCount = map[string]int{}
	st.pc = TTrue
	x.inlined = map[string]int{}
	x.ownAlloc = map[*Term]bool{}

	r := &rootRun{name: root, x: x, fn: fn}
	var args []Val
	var params []string
	if isFunc && len(cs) > 0 {
		params = cs[0].Params
	}
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(params) {
			n = params[i]
		}
		v := freshVal(x, n, p.Type())
		x.paramFacts(st, n, p.Type(), v)
		args = append(args, v)
		tv := &TV{x, p.Type(), v, st}
		x.rootVars[n] = tv
		x.rootVars[strings.TrimSuffix(n, "OrNil")] = tv
	}
	x.st0 = st.clone()
	for _, v := range x.rootVars {
		v.(*TV).st = x.st0
	}
	for _, cl := range merged.Clauses {
		if cl.Kind == "requires" {
			t, err := x.evalTerm(&symBackend{x: x, st: x.st0}, nil, cl.E)
			if err != nil {
				return nil, fmt.Errorf("%s: requires: %v", root, err)
			}
			x.fact(TTrue, t)
		}
	}
	res, fin := x.inline(fn, args, nil, st)
	r.final, r.res = fin, res
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		lo, hi := tupleRange(rs, i)
		if rs.Len() == 1 {
			lo, hi = 0, len(res)
		}
		tv := &TV{x, rs.At(i).Type(), res[lo:hi], fin}
		x.rootVars[fmt.Sprintf("ret%d", i)] = tv
		if n := rs.At(i).Name(); n != "" && n != "_" && x.rootVars[n] == nil {
			x.rootVars[n] = tv
		}
	}
	x.rootVars["ret"] = x.rootVars["ret0"]
	return r, nil
}

func (x *Exec) paramFacts(st *State, n string, t types.Type, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		if strings.HasSuffix(n, "OrNil") || types.IsInterface(t) && typeName(t) == "any" {
			return
		}
		markNonNil(v[0])
		if p, ok := u.(*types.Pointer); ok {
			if typeName(p.Elem()) == "net/http.Request" {
				for _, f := range []string{"URL", "Header"} {
					a := x.load(st, mkFieldAddr(x, v[0], p.Elem(), f), fieldType(p.Elem(), f))[0]
					markNonNil(a)
				}
			}
		}
	case *types.Map:
		markNonNil(v[0])
	case *types.Slice:
		x.fact(TTrue, mkAnd(mkLe(mkInt(0), v[1]), mkLe(mkInt(0), v[2])))
	}
}

// conjuncts splits a goal.
func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		var r []*Term
		for _, a := range t.args {
			r = append(r, conjuncts(a)...)
		}
		return r
	}
	// or with one conjunctive member: distribute once
	return []*Term{t}
}

// goals generates the obligations of the contracts of property prop for a root.
func (r *rootRun) goals(cs []*spec.Contract) []*Goal {
	x := r.x
	var out []*Goal
	x.rootIdx = 0
	for _, c := range cs {
		b := &symBackend{x: x, st: r.final}
		for _, cl := range c.Clauses {
			switch cl.Kind {
			case "clause", "ensures", "cover":
				t, err := x.evalTerm(b, nil, cl.E)
				id := c.Root + "." + cl.Name
				if err != nil {
					out = append(out, &Goal{id: id, kind: "clause", what: "contract cannot be evaluated on this code: " + err.Error(), goal: TFalse, prem: []*Term{r.final.pc}, clause: cl, exec: x})
					continue
				}
				if cl.Kind == "cover" {
					out = append(out, &Goal{id: id, kind: "cover", what: cl.Name, goal: t, prem: []*Term{r.final.pc}, cover: true, clause: cl, exec: x})
					continue
				}
				ps := conjuncts(t)
				for i, p := range ps {
					n := id
					if len(ps) > 1 {
						n = fmt.Sprintf("%s/%d", id, i+1)
					}
					out = append(out, &Goal{id: n, kind: "clause", what: cl.Name, goal: p, prem: []*Term{r.final.pc}, clause: cl, exec: x})
				}
			case "returns":
				for i, e := range cl.Es {
					id := fmt.Sprintf("%s.returns%d", c.Root, i)
					t, err := x.evalTerm(b, nil, e)
					if err != nil {
						out = append(out, &Goal{id: id, kind: "clause", what: err.Error(), goal: TFalse, prem: []*Term{r.final.pc}, clause: cl, exec: x})
						continue
					}
					tv := x.rootVars[fmt.Sprintf("ret%d", i)]
					var g *Term
					if tv == nil {
						g = TFalse
					} else {
						v, err := b.eq(tv, t)
						if err != nil {
							out = append(out, &Goal{id: id, kind: "clause", what: err.Error(), goal: TFalse, prem: []*Term{r.final.pc}, clause: cl, exec: x})
							continue
						}
						g = v
					}
					out = append(out, &Goal{id: id, kind: "clause", what: "returns", goal: g, prem: []*Term{r.final.pc}, clause: cl, exec: x})
				}
			}
		}
	}
	return out
}

// safety collects the obligations raised by execution itself.
func (r *rootRun) safety(kinds map[string]bool) []*Goal {
	var out []*Goal
	n := map[string]int{}
	seen := map[string]bool{}
	for _, o := range r.x.obls {
		if !kinds[o.kind] {
			continue
		}
		key := fmt.Sprintf("%s|%s|%s|%d|%d", o.kind, o.name, o.where, o.guard.id, o.goal.id)
		if seen[key] {
			continue
		}
		seen[key] = true
		n[o.kind]++
		out = append(out, &Goal{id: fmt.Sprintf("%s.%s%d", r.name, o.kind, n[o.kind]), kind: o.kind, what: o.name, where: o.where, prem: []*Term{o.guard}, goal: o.goal, exec: r.x})
	}
	return out
}
