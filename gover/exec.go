package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif.local/spec"
)

// Closure is a function value known to the verifier.
type Closure struct {
	fn    *ssa.Function
	binds []Val
}

// Event is one observable action, guarded by the condition under which it happens.
type Event struct {
	x      *Exec
	name   string
	idx    int
	guard  *Term
	fields map[string]any
	st     *State
	where  string
	num    int
}

func (e *Event) EvName() string      { return e.name }
func (e *Event) EvIndex() int        { return e.idx }
func (e *Event) EvGuard() spec.Value { return e.guard }
func (e *Event) EvField(n string) (spec.Value, error) {
	if v, ok := e.fields[n]; ok {
		return v, nil
	}
	if n == "header" {
		return &HdrV{e.x, e.st}, nil
	}
	return nil, fmt.Errorf("event %s has no field %s", e.name, n)
}

// Obl is one proof obligation: guard implies goal.
type Obl struct {
	kind  string // panic | requires | unsupported | clause
	name  string
	guard *Term
	goal  *Term
	where string
}

// Exec symbolically executes functions of the repository, producing events and obligations.
type Exec struct {
	P          *Program
	set        *spec.Set
	events     []*Event
	facts      []*Term
	obls       []*Obl
	writes     []*Write
	nAlloc     int
	nFresh     int
	nWrites    int // heap writes executed
	simpPanics int // run-time checks that cannot fail for a trivial reason
	ownAlloc   map[*Term]bool
	stack      []*Frame
	closures   map[*Term]*Closure
	fnRefs     map[*ssa.Function]*Term
	lost       int
	evCount    map[string]int
	used       map[string]int // external models relied on
	inlined    map[string]int
	callees    map[string]bool // contracts assumed at calls
	rootName   string
	rootC      *spec.Contract
	rootVars   map[string]any
	noCall     string // function whose contract must not be used (it is under proof)
	quiet      int
	ranges     []*rangeInfo
	globals    map[string]bool
	solve      func(ts []*Term) bool // true when unsat
	unsup      []string
	st0        *State
	rootIdx    int
}

type rangeInfo struct {
	pres  *Term
	val   []*Term
	order *Term
	n     *Term
	m     *types.Map
}

type deferred struct {
	guard *Term
	call  *ssa.CallCommon
	fn    *Term
	args  []Val
	inst  ssa.Instruction
}

// Frame is one active function.
type Frame struct {
	fn        *ssa.Function
	entry     *State
	env       map[ssa.Value]Val
	binds     []Val
	rets      []inState
	defers    []*deferred
	loops     map[*ssa.BasicBlock]*loopInfo
	rpo       []*ssa.BasicBlock
	inst      ssa.Instruction
	curLoop   *loopInfo
	unroll    bool
	exitConst bool
	skip      []edge
	cutIter   bool
	pdom      map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	endPC     map[*ssa.BasicBlock]*Term
	endLost   map[*ssa.BasicBlock]int
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
	phis []Val
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	blocks []*ssa.BasicBlock // RPO
	outs   []ssa.Value       // values used outside
}

func newExec(p *Program, set *spec.Set) *Exec {
	return &Exec{P: p, set: set, ownAlloc: map[*Term]bool{}, closures: map[*Term]*Closure{}, fnRefs: map[*ssa.Function]*Term{},
		evCount: map[string]int{}, used: map[string]int{}, inlined: map[string]int{}, callees: map[string]bool{}, rootVars: map[string]any{}, globals: map[string]bool{}}
}

func (x *Exec) where() string {
	if len(x.stack) == 0 {
		return ""
	}
	fr := x.stack[len(x.stack)-1]
	pos := token.NoPos
	if fr.inst != nil {
		pos = fr.inst.Pos()
	}
	if pos == token.NoPos {
		pos = fr.fn.Pos()
	}
	p := x.P.prog.Fset.Position(pos)
	f := p.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) unsupported(st *State, what string) {
	if x.quiet > 0 {
		return
	}
	x.unsup = append(x.unsup, what+" at "+x.where())
	x.obls = append(x.obls, &Obl{"unsupported", what, st.pc, TFalse, x.where()})
}

// mustNot raises a panic obligation for cond and continues where it is false.
func (x *Exec) mustNot(st *State, cond *Term, what string) {
	if cond == TFalse {
		x.simpPanics++
		return
	}
	g := mkAnd(st.pc, cond)
	if g == TFalse {
		x.simpPanics++
		return
	}
	x.obls = append(x.obls, &Obl{"panic", what, g, TFalse, x.where()})
	st.pc = mkAnd(st.pc, mkNot(cond))
	x.lost++
}

// assume strengthens the path.
// openB are the contract variables whose quantifier is being evaluated.
var openB = map[*Term]bool{}

func mentionsOpen(t *Term) bool {
	for v := range t.fb {
		if openB[v] {
			return true
		}
	}
	return false
}

func (x *Exec) fact(g, t *Term) {
	f := mkImp(g, t)
	if f.hasB && mentionsOpen(f) {
		return // a fact about a variable bound in a contract: not needed, dropped
	}
	if f != TTrue {
		x.facts = append(x.facts, f)
	}
}

func (x *Exec) fresh(name string, t types.Type) Val {
	x.nFresh++
	return freshVal(x, fmt.Sprintf("%s!%d", name, x.nFresh), t)
}

func (x *Exec) freshTerm(name string, s *Sort) *Term {
	x.nFresh++
	return mkConst(fmt.Sprintf("%s!%d", name, x.nFresh), s)
}

// event records an observable action.
func (x *Exec) event(st *State, name string, fields map[string]any) *Event {
	x.evCount[name]++
	e := &Event{x: x, name: name, idx: len(x.events), guard: st.pc, fields: fields, st: st.clone(), where: x.where(), num: x.evCount[name]}
	x.events = append(x.events, e)
	return e
}

func (x *Exec) fnRef(f *ssa.Function) *Term {
	if r := x.fnRefs[f]; r != nil {
		return r
	}
	r := mkLit("fn:" + f.String())
	x.fnRefs[f] = r
	x.closures[r] = &Closure{fn: f}
	return r
}

// ---- control-flow analysis ----

func analyse(fr *Frame) {
	fn := fr.fn
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpo = append(fr.rpo, post[i])
	}
	fr.loops = map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fr.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				w := []*ssa.BasicBlock{b}
				for len(w) > 0 {
					n := w[len(w)-1]
					w = w[:len(w)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					w = append(w, n.Preds...)
				}
			}
		}
	}
	for _, l := range fr.loops {
		for _, b := range fr.rpo {
			if !l.body[b] {
				continue
			}
			l.blocks = append(l.blocks, b)
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.body[r.Block()] {
						l.outs = append(l.outs, v)
						break
					}
				}
			}
		}
	}
	// post-dominators
	all := fr.rpo
	fr.pdom = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range all {
		m := map[*ssa.BasicBlock]bool{}
		if len(b.Succs) == 0 {
			m[b] = true
		} else {
			for _, c := range all {
				m[c] = true
			}
		}
		fr.pdom[b] = m
	}
	for ch := true; ch; {
		ch = false
		for i := len(all) - 1; i >= 0; i-- {
			b := all[i]
			if len(b.Succs) == 0 {
				continue
			}
			n := map[*ssa.BasicBlock]bool{}
			for c := range fr.pdom[b.Succs[0]] {
				ok := true
				for _, s := range b.Succs[1:] {
					if !fr.pdom[s][c] {
						ok = false
						break
					}
				}
				if ok {
					n[c] = true
				}
			}
			n[b] = true
			if len(n) != len(fr.pdom[b]) {
				fr.pdom[b] = n
				ch = true
			}
		}
	}
	fr.endPC = map[*ssa.BasicBlock]*Term{}
	fr.endLost = map[*ssa.BasicBlock]int{}
}

// inline executes the body of fn.
func (x *Exec) inline(fn *ssa.Function, args []Val, binds []Val, st *State) (Val, *State) {
	if len(x.stack) > 60 {
		x.unsupported(st, "call depth exceeded in "+funcName(fn))
		return x.fresh("rec", fn.Signature.Results()), st
	}
	for _, f := range x.stack {
		if f.fn == fn && fn.Parent() == nil {
			n := 0
			for _, g := range x.stack {
				if g.fn == fn {
					n++
				}
			}
			if n > 4 {
				x.unsupported(st, "recursion in "+funcName(fn))
				return x.fresh("rec", fn.Signature.Results()), st
			}
		}
	}
	if fn.Synthetic == "" {
		x.inlined[funcName(fn)]++
	}
	fr := &Frame{fn: fn, entry: st.clone(), env: map[ssa.Value]Val{}, binds: binds}
	analyse(fr)
	x.stack = append(x.stack, fr)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("%s: %d args for %d params", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	entry := st.pc
	lost0 := x.lost
	pend := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{st: st.clone()}}}
	x.region(fr, fr.rpo, nil, pend, func(from, to *ssa.BasicBlock, e edge) {
		pend[to] = append(pend[to], e)
	})
	out, v := mergeStates(fr.rets)
	if x.lost == lost0 && out.pc != TFalse {
		out.pc = entry
	}
	if v == nil {
		v = zeroVal(fn.Signature.Results())
	}
	return v, out
}

// region executes blocks in reverse post-order.
func (x *Exec) region(fr *Frame, blocks []*ssa.BasicBlock, self *loopInfo, pend map[*ssa.BasicBlock][]edge, emit func(from, to *ssa.BasicBlock, e edge)) {
	for _, b := range blocks {
		es := pend[b]
		var live []edge
		for _, e := range es {
			if e.st.pc != TFalse {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && l != self {
			x.loop(fr, l, live, emit)
			continue
		}
		st, phis := x.join(fr, b, live)
		if st.pc == TFalse {
			continue
		}
		x.block(fr, b, st, phis, emit)
	}
}

func (x *Exec) join(fr *Frame, b *ssa.BasicBlock, es []edge) (*State, []Val) {
	np := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		np++
	}
	ins := make([]inState, len(es))
	for i, e := range es {
		var v Val
		for _, p := range e.phis {
			v = append(v, p...)
		}
		ins[i] = inState{e.st, v}
	}
	st, v := mergeStates(ins)
	if len(es) > 1 {
		if d := b.Idom(); d != nil && fr.pdom[d][b] && fr.endPC[d] != nil && fr.endLost[d] == x.lost && fr.curLoopOf(d) == fr.curLoopOf(b) {
			st.pc = fr.endPC[d]
		}
	}
	var phis []Val
	k := 0
	for i := 0; i < np; i++ {
		n := len(leavesOfType(b.Instrs[i].(*ssa.Phi).Type()))
		phis = append(phis, v[k:k+n])
		k += n
	}
	return st, phis
}

// curLoopOf is the innermost loop header of a block.
func (fr *Frame) curLoopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *loopInfo
	for _, l := range fr.loops {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	if best == nil {
		return nil
	}
	return best.header
}

func phiVals(x *Exec, fr *Frame, from, to *ssa.BasicBlock) []Val {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var out []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, x.val(fr, p.Edges[k]))
	}
	return out
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, phis []Val, emit func(from, to *ssa.BasicBlock, e edge)) {
	np := 0
	for i, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[p] = phis[i]
		np++
	}
	headerPhis := phis
	for _, in := range b.Instrs[np:] {
		fr.inst = in
		switch t := in.(type) {
		case *ssa.If:
			c := x.val(fr, t.Cond)[0]
			fr.endPC[b], fr.endLost[b] = st.pc, x.lost
			if fr.curLoop != nil && c.isConst() {
				if fr.curLoop.body[b.Succs[0]] != fr.curLoop.body[b.Succs[1]] {
					fr.exitConst = true
				}
			}
			if b.Succs[0] == b.Succs[1] {
				emit(b, b.Succs[0], edge{b, st, phiVals(x, fr, b, b.Succs[0])})
				return
			}
			if c != TFalse {
				emit(b, b.Succs[0], edge{b, st.with(c), phiVals(x, fr, b, b.Succs[0])})
			}
			if c != TTrue {
				emit(b, b.Succs[1], edge{b, st.with(mkNot(c)), phiVals(x, fr, b, b.Succs[1])})
			}
			return
		case *ssa.Jump:
			fr.endPC[b], fr.endLost[b] = st.pc, x.lost
			emit(b, b.Succs[0], edge{b, st, phiVals(x, fr, b, b.Succs[0])})
			return
		case *ssa.Return:
			var v Val
			for _, r := range t.Results {
				v = append(v, x.val(fr, r)...)
			}
			fr.rets = append(fr.rets, inState{st, v})
			return
		case *ssa.Panic:
			x.mustNot(st, TTrue, "explicit panic")
			x.lost++
			return
		case *ssa.Next:
			x.next(fr, t, st, headerPhis)
		default:
			x.instr(fr, in, st)
		}
		if st.pc == TFalse {
			x.lost++
			return
		}
	}
}

// ---- values ----

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch t := v.(type) {
	case *ssa.Const:
		return x.constVal(t)
	case *ssa.Function:
		return Val{x.fnRef(t)}
	case *ssa.Global:
		return Val{x.globalRef(t)}
	case *ssa.Builtin:
		return Val{mkLit("builtin:" + t.Name())}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("%s: no value for %s = %s", fr.fn, v.Name(), v))
	}
	return r
}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	pk := ""
	if g.Pkg != nil {
		pk = shortPkg(g.Pkg.Pkg.Path())
	}
	return mkLit("g:" + pk + "." + g.Name())
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		// constant of a type-parameter or interface type
		return zeroVal(c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Val{mkBool(constant.BoolVal(c.Value))}
	case b.Info()&types.IsString != 0:
		return Val{mkStr(constant.StringVal(c.Value))}
	case b.Info()&types.IsInteger != 0:
		n, exact := constant.Int64Val(constant.ToInt(c.Value))
		if !exact {
			return Val{mkConst("bigint:"+c.Value.ExactString(), SInt)}
		}
		return Val{mkInt(n)}
	case b.Info()&types.IsFloat != 0:
		return Val{mkConst("flt"+c.Value.ExactString(), SFlt)}
	}
	return zeroVal(c.Type())
}

func (x *Exec) set1(fr *Frame, v ssa.Value, ts ...*Term) {
	fr.env[v] = Val(ts)
}

func (x *Exec) nilCheck(st *State, p *Term, what string) {
	if isAddr(p) {
		return
	}
	x.mustNot(st, mkEq(p, TNil), "nil pointer dereference ("+what+")")
}

// ---- instructions ----

func (x *Exec) instr(fr *Frame, in ssa.Instruction, st *State) {
	switch t := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := t.Type().Underlying().(*types.Pointer).Elem()
		x.set1(fr, t, x.alloc(st, el, typeName(el)))
	case *ssa.BinOp:
		fr.env[t] = x.binop(st, t.Op, x.val(fr, t.X), x.val(fr, t.Y), t.X.Type(), t.Y.Type(), t.Type())
	case *ssa.UnOp:
		x.unop(fr, t, st)
	case *ssa.Call:
		v := x.call(fr, &t.Call, t, st)
		fr.env[t] = v
	case *ssa.ChangeInterface:
		fr.env[t] = x.val(fr, t.X)
	case *ssa.ChangeType:
		fr.env[t] = x.val(fr, t.X)
	case *ssa.Convert:
		fr.env[t] = x.convert(st, x.val(fr, t.X), t.X.Type(), t.Type())
	case *ssa.MultiConvert:
		fr.env[t] = x.convert(st, x.val(fr, t.X), t.X.Type(), t.Type())
	case *ssa.Defer:
		d := &deferred{guard: st.pc, call: &t.Call, inst: t}
		if t.Call.IsInvoke() {
			d.args = append(d.args, x.val(fr, t.Call.Value))
		} else if _, ok := t.Call.Value.(*ssa.Builtin); !ok {
			d.fn = x.val(fr, t.Call.Value)[0]
		}
		for _, a := range t.Call.Args {
			d.args = append(d.args, x.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			x.runDefer(fr, fr.defers[i], st)
		}
	case *ssa.Extract:
		tp := t.Tuple.Type().(*types.Tuple)
		lo, hi := tupleRange(tp, t.Index)
		fr.env[t] = x.val(fr, t.Tuple)[lo:hi]
	case *ssa.Field:
		s := t.X.Type().Underlying().(*types.Struct)
		lo, hi := fieldRange(s, t.Field)
		fr.env[t] = x.val(fr, t.X)[lo:hi]
	case *ssa.FieldAddr:
		p := x.val(fr, t.X)[0]
		sT := derefType(t.X.Type())
		s := sT.Underlying().(*types.Struct)
		x.nilCheck(st, p, typeName(sT)+"."+s.Field(t.Field).Name())
		x.set1(fr, t, mkFieldAddr(x, p, sT, s.Field(t.Field).Name()))
	case *ssa.Go:
		x.unsupported(st, "go statement")
	case *ssa.Index:
		x.index(fr, t, st)
	case *ssa.IndexAddr:
		x.indexAddr(fr, t, st)
	case *ssa.Lookup:
		x.lookup(fr, t, st)
	case *ssa.MakeChan:
		x.unsupported(st, "channel")
		x.set1(fr, t, x.newRef("chan"))
	case *ssa.MakeClosure:
		f := t.Fn.(*ssa.Function)
		r := x.newRef("clo:" + f.Name())
		var bs []Val
		for _, b := range t.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		x.closures[r] = &Closure{f, bs}
		x.set1(fr, t, r)
	case *ssa.MakeInterface:
		x.set1(fr, t, boxVal(t.X.Type(), x.val(fr, t.X)))
	case *ssa.MakeMap:
		switch typeName(t.Type()) {
		case "net/url.Values":
			x.set1(fr, t, x.newUV(st))
			return
		case "net/http.Header":
			r := x.newRef("http.Header")
			x.wr(st, "HDR:p", SStrSet, r, mkKArr(SStrSet, TFalse))
			x.wr(st, "HDR:v", SStrMap, r, mkKArr(SStrMap, TEmpty))
			x.set1(fr, t, r)
			return
		}
		x.set1(fr, t, x.newMap(st, t.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		el := t.Type().Underlying().(*types.Slice).Elem()
		n := x.val(fr, t.Len)[0]
		x.mustNot(st, mkLt(n, mkInt(0)), "makeslice: negative length")
		if isByte(el) {
			r := x.newRef("[]byte")
			var c *Term
			if n.op == "int" && n.n < 4096 {
				c = mkStr(strings.Repeat("\x00", int(n.n)))
			} else {
				c = x.freshTerm("bytes", SStr)
				x.fact(TTrue, mkEq(mkPure("slen", c), n))
			}
			x.wr(st, "B", SStr, r, c)
			fr.env[t] = Val{r, mkInt(0), n}
			return
		}
		r := x.newRef("[]" + typeName(el))
		for _, l := range leavesOfType(el) {
			as := SArr(SInt, l.sort)
			x.wr(st, "E:"+typeName(el)+":"+l.path, as, r, mkKArr(as, zeroOf(l.sort)))
		}
		fr.env[t] = Val{r, mkInt(0), n}
	case *ssa.MapUpdate:
		m := t.Map.Type().Underlying().(*types.Map)
		r := x.val(fr, t.Map)[0]
		x.mustNot(st, mkEq(r, TNil), "assignment to entry in nil map")
		x.mapAssign(st, t.Map.Type(), m, r, x.mapKey(t.Key.Type(), x.val(fr, t.Key)), x.val(fr, t.Value))
	case *ssa.Range:
		x.rangeInit(fr, t, st)
	case *ssa.Select:
		x.unsupported(st, "select statement")
		fr.env[t] = x.fresh("select", t.Type())
	case *ssa.Send:
		x.unsupported(st, "channel send")
	case *ssa.Slice:
		x.slice(fr, t, st)
	case *ssa.SliceToArrayPointer:
		x.unsupported(st, "slice to array pointer")
		fr.env[t] = x.fresh("s2a", t.Type())
	case *ssa.Store:
		p := x.val(fr, t.Addr)[0]
		x.nilCheck(st, p, "store")
		x.store(st, p, derefType(t.Addr.Type()), x.val(fr, t.Val))
	case *ssa.TypeAssert:
		x.typeAssert(fr, t, st)
	default:
		x.unsupported(st, fmt.Sprintf("instruction %T", in))
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = x.fresh("unk", v.Type())
		}
	}
}

// mapKey flattens a map key to one term.
func (x *Exec) mapKey(t types.Type, v Val) *Term {
	if len(v) == 1 {
		return v[0]
	}
	return mkBox("key:"+typeName(t), v)
}

func (x *Exec) mapAssign(st *State, named types.Type, m *types.Map, r, k *Term, v Val) {
	if typeName(named) == "net/http.Header" || typeName(named) == "net/url.Values" {
		// direct writes bypass the header model
		els, ok := x.sliceElems(st, v, types.Typ[types.String])
		if !ok || len(els) != 1 {
			x.unsupported(st, "direct update of "+typeName(named))
			return
		}
		if typeName(named) == "net/http.Header" {
			x.headerSet(st, r, k, els[0][0])
		} else {
			x.uvSet(st, r, k, els[0][0])
		}
		return
	}
	x.mapPut(st, m, r, k, v)
}

func (x *Exec) runDefer(fr *Frame, d *deferred, st *State) {
	g := d.guard
	run := func(s *State) *State {
		var fnRes *State
		if d.call.IsInvoke() {
			_, fnRes = x.invoke(d.args[0][0], d.call.Value.Type(), d.call.Method, d.args[1:], s)
		} else if b, ok := d.call.Value.(*ssa.Builtin); ok {
			x.builtin(fr, b.Name(), d.call, d.args, s, types.NewTuple())
			fnRes = s
		} else {
			_, fnRes = x.callRef(d.fn, d.args, d.call.Signature(), d.call.Value.Type(), s)
		}
		return fnRes
	}
	if mkAnd(st.pc, g) == st.pc {
		*st = *run(st.clone())
		return
	}
	a := run(st.with(g))
	b := st.with(mkNot(g))
	pc := st.pc
	m, _ := mergeStates([]inState{{a, nil}, {b, nil}})
	m.pc = pc
	*st = *m
}

// divisor-safe integer arithmetic over mathematical integers
func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b, ta, tb)
		if op == token.NEQ {
			e = mkNot(e)
		}
		return Val{e}
	}
	s := a[0].sort
	switch s {
	case SInt:
		x1, y1 := a[0], b[0]
		switch op {
		case token.ADD:
			return Val{mkAdd(x1, y1)}
		case token.SUB:
			return Val{mkSub(x1, y1)}
		case token.MUL:
			return Val{mkMul(x1, y1)}
		case token.LSS:
			return Val{mkLt(x1, y1)}
		case token.LEQ:
			return Val{mkLe(x1, y1)}
		case token.GTR:
			return Val{mkLt(y1, x1)}
		case token.GEQ:
			return Val{mkLe(y1, x1)}
		case token.QUO, token.REM:
			x.mustNot(st, mkEq(y1, mkInt(0)), "integer divide by zero")
			return Val{mkUF("int"+op.String(), SInt, x1, y1)}
		case token.AND:
			return Val{mkUF("band", SInt, x1, y1)}
		case token.OR:
			return Val{mkUF("bor", SInt, x1, y1)}
		default:
			return Val{mkUF("int"+op.String(), SInt, x1, y1)}
		}
	case SStr:
		switch op {
		case token.ADD:
			return Val{mkCat(a[0], b[0])}
		case token.LSS:
			return Val{mkUF("strlt", SBool, a[0], b[0])}
		case token.GTR:
			return Val{mkUF("strlt", SBool, b[0], a[0])}
		case token.LEQ:
			return Val{mkNot(mkUF("strlt", SBool, b[0], a[0]))}
		case token.GEQ:
			return Val{mkNot(mkUF("strlt", SBool, a[0], b[0]))}
		}
	case SFlt:
		switch op {
		case token.LSS:
			return Val{mkUF("fltlt", SBool, a[0], b[0])}
		case token.GTR:
			return Val{mkUF("fltlt", SBool, b[0], a[0])}
		case token.LEQ:
			return Val{mkNot(mkUF("fltlt", SBool, b[0], a[0]))}
		case token.GEQ:
			return Val{mkNot(mkUF("fltlt", SBool, a[0], b[0]))}
		}
		return Val{mkUF("flt"+op.String(), SFlt, a[0], b[0])}
	case SBool:
		switch op {
		case token.AND:
			return Val{mkAnd(a[0], b[0])}
		case token.OR:
			return Val{mkOr(a[0], b[0])}
		}
	}
	x.unsupported(st, "operator "+op.String())
	return x.fresh("binop", tr)
}

func (x *Exec) equal(st *State, a, b Val, ta, tb types.Type) *Term {
	if isIface(ta) != isIface(tb) {
		if isIface(ta) {
			b = Val{boxVal(tb, b)}
		} else {
			a = Val{boxVal(ta, a)}
		}
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		// only comparison with nil is possible
		if b[0] == TNil {
			return mkEq(a[0], TNil)
		}
		return mkEq(b[0], TNil)
	}
	r := TTrue
	for i := range a {
		r = mkAnd(r, mkEq(a[i], b[i]))
	}
	if isIface(ta) && isIface(tb) && !r.isConst() && !comparableRef(a[0]) && !comparableRef(b[0]) {
		// comparing two values of the same dynamic type panics when the type is not comparable
		x.mustNot(st, mkAnd(mkUF("uncomparable", SBool, a[0]), mkUF("uncomparable", SBool, b[0])), "comparison of interface values of an uncomparable type")
	}
	return r
}

// comparableRef is true for interface values whose dynamic type surely supports ==.
func comparableRef(t *Term) bool {
	for _, l := range leavesOf(t) {
		if l.t == TNil || isAllocLit(l.t) || isAddr(l.t) {
			continue
		}
		if isMk(l.t) {
			if ty := typeTab[l.t.s[3:]]; ty != nil && types.Comparable(ty) {
				continue
			}
		}
		return false
	}
	return true
}

func (x *Exec) unop(fr *Frame, t *ssa.UnOp, st *State) {
	v := x.val(fr, t.X)
	switch t.Op {
	case token.MUL:
		if g, ok := t.X.(*ssa.Global); ok && !x.repoGlobal(g) {
			fr.env[t] = x.externGlobal(g, t.Type())
			return
		}
		x.nilCheck(st, v[0], "load")
		fr.env[t] = x.load(st, v[0], t.Type())
	case token.NOT:
		x.set1(fr, t, mkNot(v[0]))
	case token.SUB:
		if v[0].sort == SInt {
			x.set1(fr, t, mkSub(mkInt(0), v[0]))
		} else {
			x.set1(fr, t, mkUF("fltneg", SFlt, v[0]))
		}
	case token.XOR:
		x.set1(fr, t, mkUF("bnot", SInt, v[0]))
	case token.ARROW:
		x.unsupported(st, "channel receive")
		fr.env[t] = x.fresh("recv", t.Type())
	default:
		x.unsupported(st, "unary "+t.Op.String())
		fr.env[t] = x.fresh("unop", t.Type())
	}
}

func (x *Exec) repoGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), repoPath)
}

// externGlobal names the value of a global of another package.
func (x *Exec) externGlobal(g *ssa.Global, t types.Type) Val {
	n := g.Name()
	if g.Pkg != nil {
		n = g.Pkg.Pkg.Path() + "." + n
	}
	switch n {
	case "encoding/base64.URLEncoding", "encoding/base64.StdEncoding", "encoding/base64.RawURLEncoding", "encoding/base64.RawStdEncoding":
		return Val{mkLit("x:" + n)}
	}
	v := freshVal(x, "x:"+n, t)
	if len(v) == 1 && v[0].sort == SRef {
		markNonNil(v[0])
	}
	return v
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case tb != nil && tb.Info()&types.IsString != 0:
		if isByteSlice(from) {
			return Val{x.bytesOf(st, v)}
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return Val{mkUF("runestr", SStr, v[0])}
		}
	case isByteSlice(to) && fb != nil && fb.Info()&types.IsString != 0:
		return x.newBytes(st, v[0])
	case fb != nil && tb != nil:
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		switch {
		case fi && ti:
			return Val{wrapInt(v[0], fb.Kind(), tb.Kind())}
		case ff && tf:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return Val{mkUF("f2f32", SFlt, v[0])}
			}
			return v
		case fi && tf:
			return Val{mkUF("i2f", SFlt, v[0])}
		case ff && ti:
			return Val{wrapInt(mkUF("f2i", SInt, v[0]), types.Int64, tb.Kind())}
		}
	}
	if len(leavesOfType(from)) == len(leavesOfType(to)) {
		ok := true
		for i, l := range leavesOfType(to) {
			if l.sort != v[i].sort {
				ok = false
			}
		}
		if ok {
			return v
		}
	}
	x.unsupported(st, "conversion "+typeName(from)+" to "+typeName(to))
	return x.fresh("conv", to)
}

func (x *Exec) boundsCheck(st *State, i, n *Term) {
	x.mustNot(st, mkOr(mkLt(i, mkInt(0)), mkLe(n, i)), "index out of range")
}

func (x *Exec) index(fr *Frame, t *ssa.Index, st *State) {
	v, i := x.val(fr, t.X), x.val(fr, t.Index)[0]
	switch u := t.X.Type().Underlying().(type) {
	case *types.Array:
		x.boundsCheck(st, i, mkInt(u.Len()))
		if isByte(u.Elem()) {
			x.set1(fr, t, mkUF("byteat", SInt, v[0], i))
			return
		}
		var r Val
		for _, a := range v {
			r = append(r, mkSelect(a, i))
		}
		fr.env[t] = r
	default: // string
		x.boundsCheck(st, i, mkPure("slen", v[0]))
		x.set1(fr, t, mkUF("byteat", SInt, v[0], i))
	}
}

func (x *Exec) indexAddr(fr *Frame, t *ssa.IndexAddr, st *State) {
	v, i := x.val(fr, t.X), x.val(fr, t.Index)[0]
	switch u := t.X.Type().Underlying().(type) {
	case *types.Slice:
		x.boundsCheck(st, i, v[2])
		x.set1(fr, t, mkElemAddr(v[0], u.Elem(), mkAdd(v[1], i)))
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		x.nilCheck(st, v[0], "array")
		x.boundsCheck(st, i, mkInt(ar.Len()))
		x.set1(fr, t, mkElemAddr(v[0], ar.Elem(), i))
	}
}

func (x *Exec) lookup(fr *Frame, t *ssa.Lookup, st *State) {
	v := x.val(fr, t.X)
	m, ok := t.X.Type().Underlying().(*types.Map)
	if !ok {
		i := x.val(fr, t.Index)[0]
		x.boundsCheck(st, i, mkPure("slen", v[0]))
		x.set1(fr, t, mkUF("byteat", SInt, v[0], i))
		return
	}
	k := x.mapKey(t.Index.Type(), x.val(fr, t.Index))
	n := typeName(t.X.Type())
	if n == "net/http.Header" || n == "net/url.Values" {
		p, val := x.hdrGet(st, n, v[0], k)
		sv := x.valueList(st, n, v[0], k, p, val)
		sv = iteVal(p, sv, zeroVal(m.Elem()))
		if t.CommaOk {
			fr.env[t] = append(append(Val{}, sv...), p)
		} else {
			fr.env[t] = sv
		}
		return
	}
	p, r := x.mapGet(st, m, v[0], k)
	if t.CommaOk {
		fr.env[t] = append(append(Val{}, r...), p)
	} else {
		fr.env[t] = r
	}
}

func (x *Exec) slice(fr *Frame, t *ssa.Slice, st *State) {
	v := x.val(fr, t.X)
	opt := func(w ssa.Value, d *Term) *Term {
		if w == nil {
			return d
		}
		return x.val(fr, w)[0]
	}
	lo := opt(t.Low, mkInt(0))
	switch u := t.X.Type().Underlying().(type) {
	case *types.Slice:
		hi := opt(t.High, v[2])
		// capacity is not modelled: reslicing beyond the length is reported
		x.mustNot(st, mkOr(mkLt(lo, mkInt(0)), mkLt(hi, lo), mkLt(v[2], hi)), "slice bounds out of range")
		fr.env[t] = Val{v[0], mkAdd(v[1], lo), mkSub(hi, lo)}
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		hi := opt(t.High, mkInt(ar.Len()))
		x.mustNot(st, mkOr(mkLt(lo, mkInt(0)), mkLt(hi, lo), mkLt(mkInt(ar.Len()), hi)), "slice bounds out of range")
		if isAddr(v[0]) {
			x.unsupported(st, "slice of an embedded array")
		}
		fr.env[t] = Val{v[0], lo, mkSub(hi, lo)}
	default: // string
		n := mkPure("slen", v[0])
		hi := opt(t.High, n)
		x.mustNot(st, mkOr(mkLt(lo, mkInt(0)), mkLt(hi, lo), mkLt(n, hi)), "slice bounds out of range")
		x.set1(fr, t, mkPure("substr", v[0], lo, hi))
	}
}

// concreteTypes lists the repository types implementing an interface; used to
// resolve assertions to interface types.
func implements(tn string, it *types.Interface, P *Program) (bool, bool) {
	t := P.typeByName(tn)
	if t == nil {
		return false, false
	}
	return types.Implements(t, it), true
}

func (x *Exec) typeAssert(fr *Frame, t *ssa.TypeAssert, st *State) {
	v := x.val(fr, t.X)[0]
	var ok *Term
	var res Val
	if isIface(t.AssertedType) {
		it := t.AssertedType.Underlying().(*types.Interface)
		ok = TFalse
		for _, l := range leavesOf(v) {
			var c *Term
			switch {
			case l.t == TNil:
				c = TFalse
			case isMk(l.t):
				if im, known := implements(l.t.s[3:], it, x.P); known {
					c = mkBool(im)
				} else {
					c = mkUF("impl:"+typeName(t.AssertedType), SBool, l.t)
				}
			default:
				if types.Implements(t.X.Type(), it) || types.AssignableTo(t.X.Type(), t.AssertedType) {
					c = mkNot(mkEq(l.t, TNil))
				} else {
					c = mkAnd(mkNot(mkEq(l.t, TNil)), mkUF("impl:"+typeName(t.AssertedType), SBool, l.t))
				}
			}
			ok = mkOr(ok, mkAnd(l.g, c))
		}
		res = Val{v}
	} else {
		n := typeName(t.AssertedType)
		x.P.noteType(t.AssertedType)
		ok = mkEq(mkTag(v), mkInt(typeId(n)))
		res = unboxVal(t.AssertedType, v)
		for _, l := range leavesOf(v) {
			if isOpaque(l.t) && !isMk(l.t) {
				// an opaque value with this tag is the box of its payload
				x.fact(mkAnd(l.g, mkEq(mkTag(l.t), mkInt(typeId(n)))), mkAnd(eqRawRef(l.t, boxVal(t.AssertedType, unboxVal(t.AssertedType, l.t))), mkNot(mkEq(l.t, TNil))))
			}
		}
	}
	if t.CommaOk {
		z := zeroVal(t.AssertedType)
		fr.env[t] = append(append(Val{}, iteVal(ok, res, z)...), ok)
		return
	}
	x.mustNot(st, mkNot(ok), "failed type assertion to "+typeName(t.AssertedType))
	fr.env[t] = res
}

func eqRawRef(a, b *Term) *Term { return mk("=", SBool, "", 0, []*Term{a, b}, nil) }

// ---- map ranges ----

// rangeInit starts an iteration: the keys are listed by a ghost order array.
func (x *Exec) rangeInit(fr *Frame, t *ssa.Range, st *State) {
	r := x.newRef("iter")
	x.wr(st, "IT", SInt, r, mkInt(0))
	fr.env[t] = Val{r}
	m, ok := t.X.Type().Underlying().(*types.Map)
	if !ok {
		return
	}
	ref := x.val(fr, t.X)[0]
	n := typeName(t.X.Type())
	if n == "net/http.Header" || n == "net/url.Values" {
		x.unsupported(st, "range over "+n)
	}
	ri := &rangeInfo{m: m}
	if ref == TNil {
		ri.pres = mkKArr(SArr(mapKeySort(m), SBool), TFalse)
	} else {
		ri.pres = x.mapPres(st, m, ref)
	}
	for _, l := range leavesOfType(m.Elem()) {
		ri.val = append(ri.val, x.mapVal(st, m, l, ref))
	}
	// the iteration order: a ghost list of the keys, without repetition
	x.nFresh++
	ks := mapKeySort(ri.m)
	ri.order = mkConst(fmt.Sprintf("order!%d", x.nFresh), SArr(SInt, ks))
	ri.n = mkConst(fmt.Sprintf("card!%d", x.nFresh), SInt)
	x.fact(TTrue, mkLe(mkInt(0), ri.n))
	if ks == SStr {
		s := mkConst("?k", SStr)
		x.fact(TTrue, mkForall([]*Term{s}, mkEq(mkSelect(ri.pres, s), mkPre(ri.order, ri.n, s))))
	}
	x.ranges = append(x.ranges, ri)
	x.rangeOf(r, ri)
}

var rangeTab = map[*Term]*rangeInfo{}

func (x *Exec) rangeOf(r *Term, ri *rangeInfo) { rangeTab[r] = ri }

// explicitKeys lists the keys of a map built by the code itself.
func explicitKeys(pres *Term) ([]*Term, bool) {
	base, ents := arrParts(pres)
	if base.op != "karr" || base.args[0] != TFalse {
		return nil, false
	}
	var ks []*Term
	for i := 0; i < len(ents); i += 2 {
		ks = append(ks, ents[i])
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].op == "str" && ks[j].op == "str" {
			return ks[i].s < ks[j].s
		}
		return ks[i].id < ks[j].id
	})
	return ks, true
}

func (x *Exec) next(fr *Frame, t *ssa.Next, st *State, phis []Val) {
	it := x.val(fr, t.Iter)[0]
	idx := x.rd(st, "IT", SInt, it)
	x.quietWr(st, "IT", SInt, it, mkAdd(idx, mkInt(1)))
	if t.IsString {
		s := x.val(fr, t.Iter.(*ssa.Range).X)[0]
		if s.op == "str" && idx.op == "int" {
			// iterate literal strings exactly
			rs := []rune(s.s)
			if int(idx.n) < len(rs) {
				fr.env[t] = Val{TTrue, mkInt(int64(len(string(rs[:idx.n])))), mkInt(int64(rs[idx.n]))}
			} else {
				fr.env[t] = Val{TFalse, mkInt(0), mkInt(0)}
			}
			return
		}
		fr.env[t] = x.fresh("strnext", t.Type())
		return
	}
	ri := rangeTab[it]
	tup := t.Type().(*types.Tuple)
	kz, vz := zeroTuple(tup, 1), zeroTuple(tup, 2)
	if fr.unroll {
		ks, ok := explicitKeys(ri.pres)
		if !ok || idx.op != "int" {
			fr.env[t] = x.fresh("next", t.Type())
			return
		}
		if int(idx.n) >= len(ks) {
			v := Val{TFalse}
			v = append(append(v, kz...), vz...)
			fr.env[t] = v
			return
		}
		k := ks[idx.n]
		p := mkSelect(ri.pres, k)
		if p != TTrue {
			sk := st.with(mkNot(p))
			if sk.pc != TFalse {
				fr.skip = append(fr.skip, edge{t.Block(), sk, phis})
			}
			st.pc = mkAnd(st.pc, p)
		}
		v := Val{TTrue}
		v = append(v, nextKV(tup, ri, k)...)
		fr.env[t] = v
		return
	}
	// symbolic: ghost order array
	ok := mkLt(idx, ri.n)
	k := mkSelect(ri.order, idx)
	x.fact(mkAnd(st.pc, ok), mkSelect(ri.pres, k))
	if mapKeySort(ri.m) == SStr {
		x.fact(mkAnd(st.pc, ok), mkNot(mkPre(ri.order, idx, k)))
	}
	v := Val{ok}
	v = append(v, nextKV(tup, ri, k)...)
	fr.env[t] = v
}

func nextKV(tup *types.Tuple, ri *rangeInfo, k *Term) Val {
	var v Val
	if wanted(tup, 1) {
		v = append(v, k)
	} else {
		v = append(v, TNil)
	}
	if wanted(tup, 2) {
		for _, a := range ri.val {
			v = append(v, mkSelect(a, k))
		}
	} else {
		v = append(v, TNil)
	}
	return v
}

func (x *Exec) quietWr(st *State, key string, s *Sort, ref, v *Term) {
	st.heap[key] = mkStore(heapArr(st.heap, key, s), ref, v)
}

func zeroTuple(t *types.Tuple, i int) Val { return zeroVal(t.At(i).Type()) }

// wanted is false for a tuple component that the loop does not use.
func wanted(t *types.Tuple, i int) bool {
	b, ok := t.At(i).Type().(*types.Basic)
	return !ok || b.Kind() != types.Invalid
}

// intRange gives the number of bits of an integer type and whether it is signed.
func intRange(k types.BasicKind) (bits int, signed bool) {
	switch k {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// wrapInt converts between integer types: a value the target can hold stays as it is.
func wrapInt(v *Term, from, to types.BasicKind) *Term {
	fb, fs := intRange(from)
	tb, ts := intRange(to)
	if v.op == "ite" {
		return mkIte(v.args[0], wrapInt(v.args[1], from, to), wrapInt(v.args[2], from, to))
	}
	if fs == ts && fb <= tb || ts && !fs && fb < tb {
		return v
	}
	lo, hi := wrapBounds(tb, ts)
	if v.op == "int" && v.n >= lo && v.n <= hi {
		return v
	}
	n := "wrapu"
	if ts {
		n = "wraps"
	}
	return mkUF(n, SInt, v, mkInt(int64(tb)))
}

// wrapBounds limits a type of that many bits; above 2^63-1 no bound is stated.
func wrapBounds(bits int, signed bool) (lo, hi int64) {
	switch {
	case signed:
		return -1 << (bits - 1), 1<<(bits-1) - 1
	case bits == 64:
		return 0, math.MaxInt64
	}
	return 0, 1<<bits - 1
}
