package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif.local/spec"
)

var debugInv = os.Getenv("GOVER_INV") != ""

type mark struct{ ev, fa, ob, wr, un, rets, defs, rng int }

func (x *Exec) mark(fr *Frame) mark {
	return mark{len(x.events), len(x.facts), len(x.obls), len(x.writes), len(x.unsup), len(fr.rets), len(fr.defers), len(x.ranges)}
}

func (x *Exec) rollback(fr *Frame, m mark) {
	for _, e := range x.events[m.ev:] {
		x.evCount[e.name]--
	}
	x.events = x.events[:m.ev]
	x.facts = x.facts[:m.fa]
	x.obls = x.obls[:m.ob]
	x.writes = x.writes[:m.wr]
	x.unsup = x.unsup[:m.un]
	fr.rets = fr.rets[:m.rets]
	fr.defers = fr.defers[:m.defs]
	x.ranges = x.ranges[:m.rng]
}

type exitEdge struct {
	from, to *ssa.BasicBlock
	e        edge
	outs     []Val
}

// loop executes a natural loop: exactly when its control is concrete, otherwise
// by cutting it at the header with inferred invariants.
func (x *Exec) loop(fr *Frame, l *loopInfo, in []edge, emit func(from, to *ssa.BasicBlock, e edge)) {
	if x.wantUnroll(fr, l) {
		m := x.mark(fr)
		lost := x.lost
		if x.tryUnroll(fr, l, in, emit) {
			return
		}
		x.rollback(fr, m)
		x.lost = lost
	}
	x.cut(fr, l, in, emit)
}

// map ranges that carry values from one iteration to the next depend on the
// iteration order and are therefore never unrolled in a fixed order
func (x *Exec) wantUnroll(fr *Frame, l *loopInfo) bool {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			for _, p := range l.header.Instrs {
				if _, ok := p.(*ssa.Phi); ok {
					return false
				}
			}
			for b := range l.body {
				for _, p := range b.Instrs {
					if ordered(p) {
						return false
					}
				}
			}
		}
	}
	return true
}

// ordered reports an instruction whose effect shows in which order a loop runs.
func ordered(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Store:
		a := in.Addr
		for {
			switch u := a.(type) {
			case *ssa.IndexAddr:
				a = u.X
				continue
			case *ssa.FieldAddr:
				a = u.X
				continue
			}
			break
		}
		al, ok := a.(*ssa.Alloc)
		return !ok || al.Parent() != in.Parent() || al.Heap && al.Comment != "varargs" && al.Comment != "slicelit" && al.Comment != "complit"
	case ssa.CallInstruction:
		c := in.Common()
		for _, a := range c.Args {
			if m, ok := a.(*ssa.MakeInterface); ok {
				a = m.X
			}
			if p, ok := a.Type().Underlying().(*types.Pointer); ok {
				switch typeName(p.Elem()) {
				case "strings.Builder", "bytes.Buffer":
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) tryUnroll(fr *Frame, l *loopInfo, in []edge, emit func(from, to *ssa.BasicBlock, e edge)) bool {
	saveLoop, saveUn, saveConst := fr.curLoop, fr.unroll, fr.exitConst
	defer func() { fr.curLoop, fr.unroll, fr.exitConst = saveLoop, saveUn, saveConst }()
	fr.curLoop, fr.unroll = l, true
	var exits []exitEdge
	cur := in
	for it := 0; ; it++ {
		if it > 300 {
			return false
		}
		fr.exitConst = false
		fr.skip = nil
		var back []edge
		pend := map[*ssa.BasicBlock][]edge{l.header: cur}
		x.region(fr, l.blocks, l, pend, func(from, to *ssa.BasicBlock, e edge) {
			switch {
			case to == l.header:
				back = append(back, e)
			case l.body[to]:
				pend[to] = append(pend[to], e)
			default:
				exits = append(exits, exitEdge{from, to, e, x.snapOuts(fr, l)})
			}
		})
		// nested loops reset these
		fr.curLoop, fr.unroll = l, true
		back = append(back, fr.skip...)
		fr.skip = nil
		var live []edge
		for _, e := range back {
			if e.st.pc != TFalse {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			break
		}
		if !fr.exitConst {
			return false
		}
		cur = live
	}
	// values defined inside and used outside
	var pcs []*Term
	for _, e := range exits {
		pcs = append(pcs, e.e.st.pc)
	}
	if len(exits) > 0 {
		conds := relConds(pcs)
		for i, v := range l.outs {
			var acc Val
			for k := len(exits) - 1; k >= 0; k-- {
				o := exits[k].outs[i]
				if o == nil {
					continue
				}
				if acc == nil {
					acc = o
				} else {
					acc = iteVal(conds[k], o, acc)
				}
			}
			if acc != nil {
				fr.env[v] = acc
			}
		}
	}
	for _, e := range exits {
		emit(e.from, e.to, e.e)
	}
	return true
}

func (x *Exec) snapOuts(fr *Frame, l *loopInfo) []Val {
	out := make([]Val, len(l.outs))
	for i, v := range l.outs {
		out[i] = fr.env[v]
	}
	return out
}

// ---- cutting ----

type hslot struct {
	key string
	ref *Term // nil: the whole map
	srt *Sort
}

// cut proves and assumes inductive invariants at the loop header.
func (x *Exec) cut(fr *Frame, l *loopInfo, in []edge, emit func(from, to *ssa.BasicBlock, e edge)) {
	saveLoop, saveUn := fr.curLoop, fr.unroll
	defer func() { fr.curLoop, fr.unroll = saveLoop, saveUn }()
	fr.curLoop, fr.unroll = l, false
	st0, phi0 := x.join(fr, l.header, in)
	var phis []*ssa.Phi
	for _, i := range l.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	x.lost++
	x.nFresh++
	tag := fmt.Sprintf("loop%d", x.nFresh)
	hphi := make([]Val, len(phis))
	mkState := func(mod []hslot) *State {
		st := st0.clone()
		for i, p := range phis {
			hphi[i] = x.havocPhi(st, fmt.Sprintf("%s.%d", tag, i), p.Type())
		}
		for k, m := range mod {
			n := fmt.Sprintf("%s.h%d", tag, k)
			if m.ref == nil {
				st.heap[m.key] = mkConst(n, m.srt)
			} else {
				x.quietWr(st, m.key, m.srt, m.ref, mkConst(n, m.srt))
			}
		}
		return st
	}
	runBody := func(st *State) (back []edge, exits []exitEdge) {
		pend := map[*ssa.BasicBlock][]edge{l.header: {{nil, st.clone(), hphi}}}
		x.region(fr, l.blocks, l, pend, func(from, to *ssa.BasicBlock, e edge) {
			switch {
			case to == l.header:
				back = append(back, e)
			case l.body[to]:
				pend[to] = append(pend[to], e)
			default:
				exits = append(exits, exitEdge{from, to, e, nil})
			}
		})
		fr.curLoop, fr.unroll = l, false
		return
	}
	// find what the body modifies
	var mod []hslot
	nf := x.nFresh
	bad := ""
	for round := 0; round < 6; round++ {
		m := x.mark(fr)
		na := x.nAlloc
		x.nFresh = nf
		st := mkState(mod)
		back, _ := runBody(st)
		nm := mod
		for _, e := range back {
			nm = diffHeap(nm, st, e.st, na, x)
			for i := range phis {
				if b := x.phiEscapes(phis[i].Type(), e.phis[i], phi0[i]); b != "" {
					bad = b
				}
			}
		}
		x.rollback(fr, m)
		if len(nm) == len(mod) {
			break
		}
		mod = nm
	}
	st := mkState(mod)
	if bad != "" {
		x.unsupported(st, "loop-carried "+bad)
	}
	nf = x.nFresh
	// candidate invariants
	cands := append(x.autoCands(fr, l, phis, phi0, mod), x.candidates(fr, phis, mod, st0)...)
	// initially true?
	var keep []*cand
	for _, c := range cands {
		t, err := c.eval(x, phi0, st0)
		if err != nil {
			if debugInv {
				fmt.Printf("INV %s: %v\n", c.cl.Name, err)
			}
			continue
		}
		if x.prove(append(append([]*Term{}, x.facts...), st0.pc, mkNot(t))) {
			keep = append(keep, c)
		} else if debugInv {
			fmt.Printf("INV %s not initial: %.300s\n", c.cl.Name, t.Str())
		}
	}
	m := x.mark(fr)
	na := x.nAlloc
	for len(keep) > 0 {
		x.nFresh = nf
		x.nAlloc = na
		for _, c := range keep {
			if t, err := c.eval(x, hphi, st); err == nil {
				x.fact(st.pc, t)
			}
		}
		back, _ := runBody(st)
		var ok []*cand
		for _, c := range keep {
			good := true
			for _, e := range back {
				if e.st.pc == TFalse {
					continue
				}
				t, err := c.eval(x, e.phis, e.st)
				if err != nil || !x.prove(append(append([]*Term{}, x.facts...), e.st.pc, mkNot(t))) {
					good = false
					if debugInv {
						fmt.Printf("INV %s not inductive: %v %.400s\n", c.cl.Name, err, t.Str())
					}
					break
				}
			}
			if good {
				ok = append(ok, c)
			}
		}
		x.rollback(fr, m)
		if len(ok) == len(keep) {
			break
		}
		keep = ok
	}
	x.nFresh = nf
	x.nAlloc = na
	// assume the invariants; equations that determine a loop variable are applied
	assume := func(st *State, record bool) *State {
		for _, c := range keep {
			t, err := c.eval(x, hphi, st)
			if err != nil {
				continue
			}
			x.fact(st.pc, t)
			if record {
				x.obls = append(x.obls, &Obl{"invariant", "loop invariant " + c.cl.Name, TFalse, TTrue, x.where()})
			}
			if v, d := definition(t, hphi); v != nil {
				m := map[*Term]*Term{v: d}
				for i := range hphi {
					n := make(Val, len(hphi[i]))
					for j := range hphi[i] {
						n[j] = subst(hphi[i][j], m)
					}
					hphi[i] = n
				}
				st = st.clone()
				for k, a := range st.heap {
					st.heap[k] = subst(a, m)
				}
			}
		}
		return st
	}
	m = x.mark(fr)
	_, exits := runBody(assume(st, true))
	if len(x.events) != m.ev {
		// the body acts: describe an arbitrary earlier iteration and the last one separately
		x.rollback(fr, m)
		tag += "a"
		runBody(assume(mkState(mod), true))
		no := len(x.obls)
		tag += "b"
		_, exits = runBody(assume(mkState(mod), false))
		x.obls = x.obls[:no]
	}
	for _, e := range exits {
		emit(e.from, e.to, e.e)
	}
}

// definition recognises an equation that determines one loop variable.
func definition(t *Term, phis []Val) (*Term, *Term) {
	if t.op != "=" {
		return nil, nil
	}
	for i := 0; i < 2; i++ {
		v, d := t.args[i], t.args[1-i]
		if v.op != "const" || occurs(v, d) {
			continue
		}
		for _, p := range phis {
			for _, c := range p {
				if c == v {
					return v, d
				}
			}
		}
	}
	return nil, nil
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (x *Exec) prove(ts []*Term) bool {
	a := mkAnd(ts...)
	if a == TFalse {
		return true
	}
	if x.solve == nil {
		return false
	}
	return x.solve(ts)
}

// havocPhi makes an arbitrary value for a loop-carried variable.
func (x *Exec) havocPhi(st *State, name string, t types.Type) Val {
	if s, ok := t.Underlying().(*types.Slice); ok {
		n := mkConst(name+".len", SInt)
		x.fact(TTrue, mkLe(mkInt(0), n))
		r := mkLit("oh:" + name)
		x.ownAlloc[r] = true
		if isByte(s.Elem()) {
			c := mkConst(name+".bytes", SStr)
			x.quietWr(st, "B", SStr, r, c)
			x.fact(TTrue, mkEq(mkPure("slen", c), n))
			return Val{r, mkInt(0), n}
		}
		for _, l := range leavesOfType(s.Elem()) {
			as := SArr(SInt, l.sort)
			x.quietWr(st, "E:"+typeName(s.Elem())+":"+l.path, as, r, mkConst(name+".arr"+l.path, as))
		}
		return Val{r, mkInt(0), n}
	}
	v := freshVal(x, name, t)
	for i, l := range leavesOfType(t) {
		if strings.HasSuffix(l.path, "#off") {
			v[i] = mkConst(name+"."+l.path, SInt)
		}
	}
	return v
}

// phiEscapes rejects loop-carried references to objects allocated by the code.
func (x *Exec) phiEscapes(t types.Type, vs ...Val) string {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return ""
	}
	for i, l := range leavesOfType(t) {
		if l.sort != SRef {
			continue
		}
		for _, v := range vs {
			for _, lf := range leavesOf(v[i]) {
				if isAllocLit(lf.t) || isAddr(lf.t) {
					return "reference " + typeName(t)
				}
			}
		}
	}
	return ""
}

func diffHeap(mod []hslot, a, b *State, na int, x *Exec) []hslot {
	has := func(k string, r *Term) bool {
		for _, m := range mod {
			if m.key == k && (m.ref == r || m.ref == nil) {
				return true
			}
		}
		return false
	}
	var keys []string
	for k := range b.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		tb := b.heap[k]
		ta := a.heap[k]
		if ta == nil {
			ta = heapArr(a.heap, k, tb.sort.v)
		}
		if ta == tb {
			continue
		}
		ba, ea := arrParts(ta)
		bb, eb := arrParts(tb)
		if ba != bb {
			if !has(k, nil) {
				mod = append(mod, hslot{k, nil, tb.sort})
			}
			continue
		}
		for i := 0; i < len(eb); i += 2 {
			j, ok := arrFind(ea, eb[i])
			if !ok {
				// allocated inside the body
				if isAllocLit(eb[i]) && allocIndex(eb[i]) > na {
					continue
				}
				if isAllocLit(eb[i]) && x.ownAlloc[eb[i]] {
					continue
				}
			}
			var old *Term
			if ok {
				old = ea[2*j+1]
			} else {
				old = mkSelect(ta, eb[i])
			}
			if old != eb[i+1] && !has(k, eb[i]) {
				mod = append(mod, hslot{k, eb[i], tb.sort.v})
			}
		}
	}
	return mod
}

func allocIndex(t *Term) int {
	var n int
	if strings.HasPrefix(t.s, "o") {
		fmt.Sscanf(t.s[1:], "%d", &n)
	}
	return n
}

// ---- invariant candidates ----

type cand struct {
	cl   *spec.Clause
	bind map[string]func(phis []Val, st *State) any
	desc string
	base *spec.Env // parameters of the function the template belongs to
	auto func(phis []Val, st *State) *Term
}

// autoCands bounds loop counters that start at a constant and are compared in the header.
func (x *Exec) autoCands(fr *Frame, l *loopInfo, phis []*ssa.Phi, phi0 []Val, mod []hslot) []*cand {
	var out []*cand
	for _, m := range mod {
		if m.key != "IT" || m.ref == nil || rangeTab[m.ref] == nil {
			continue
		}
		ref, n := m.ref, rangeTab[m.ref].n
		out = append(out, &cand{cl: &spec.Clause{Name: "counter"}, auto: func(ps []Val, st *State) *Term {
			i := x.rd(st, "IT", SInt, ref)
			return mkLe(mkInt(0), i)
		}}, &cand{cl: &spec.Clause{Name: "counter"}, auto: func(ps []Val, st *State) *Term {
			i := x.rd(st, "IT", SInt, ref)
			return mkLe(i, n)
		}})
	}
	for i, p := range phis {
		i := i
		if u, ok := p.Type().Underlying().(*types.Basic); !ok || u.Info()&types.IsInteger == 0 {
			continue
		}
		if lo := phi0[i][0]; lo.op == "int" {
			out = append(out, &cand{cl: &spec.Clause{Name: "counter"}, auto: func(ps []Val, st *State) *Term { return mkLe(lo, ps[i][0]) }})
		}
		ctr := func(f func(t *Term) *Term) {
			out = append(out, &cand{cl: &spec.Clause{Name: "counter"}, auto: func(ps []Val, st *State) *Term { return f(ps[i][0]) }})
		}
		// a loop that tests at its end: p+1 < y there, so p < y at its start
		for _, b := range l.header.Preds {
			if !l.body[b] || len(b.Succs) != 2 || b.Succs[0] != l.header {
				continue
			}
			c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
			if !ok || c.Op != token.LSS {
				continue
			}
			if s, ok := c.X.(*ssa.BinOp); !ok || s.Op != token.ADD || s.X != ssa.Value(p) {
				continue
			}
			if in, ok := c.Y.(ssa.Instruction); ok && l.body[in.Block()] {
				continue
			}
			h := x.val(fr, c.Y)[0]
			ctr(func(t *Term) *Term { return mkLt(t, h) })
		}
		ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := ifi.Cond.(*ssa.BinOp)
		if ok && (c.Op == token.GEQ || c.Op == token.GTR) && c.X == ssa.Value(p) {
			// a loop that counts down
			if k, ok := c.Y.(*ssa.Const); ok && k.Value != nil {
				lo := k.Int64()
				if c.Op == token.GEQ {
					lo--
				}
				ctr(func(t *Term) *Term { return mkLe(mkInt(lo), t) })
			}
			h := phi0[i][0]
			ctr(func(t *Term) *Term { return mkLe(t, h) })
		}
		if !ok || (c.Op != token.LSS && c.Op != token.LEQ) {
			continue
		}
		off := int64(0)
		if c.Op == token.LEQ {
			off = 1
		}
		v := c.X
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(p) {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
				off -= k.Int64()
				v = p
			}
		}
		if v != ssa.Value(p) {
			continue
		}
		y := c.Y
		lenOf := false
		if k, ok := y.(*ssa.Call); ok {
			if bi, ok := k.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && k.Block() == l.header {
				y = k.Call.Args[0]
				if _, ok := y.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				lenOf = true
			}
		}
		if in, ok := y.(ssa.Instruction); ok && l.body[in.Block()] {
			continue
		}
		hi := x.val(fr, y)
		h := hi[0]
		if lenOf {
			h = hi[2]
		}
		out = append(out, &cand{cl: &spec.Clause{Name: "counter"}, auto: func(ps []Val, st *State) *Term { return mkLe(ps[i][0], mkAdd(h, mkInt(off))) }})
	}
	return out
}

func (c *cand) eval(x *Exec, phis []Val, st *State) (*Term, error) {
	if c.auto != nil {
		return c.auto(phis, st), nil
	}
	env := c.base
	for n, f := range c.bind {
		env = env.With(n, f(phis, st))
	}
	b := &symBackend{x: x, st: st}
	v, err := x.set.Eval(b, env, c.cl.E)
	if err != nil {
		return nil, err
	}
	return b.term(v)
}

func metavars(e *spec.Expr, m map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "var" && strings.HasPrefix(e.Name, "$") {
		m[e.Name] = true
	}
	for _, a := range e.Args {
		metavars(a, m)
	}
}

// candidates instantiates the invariant templates of the contract under proof.
func (x *Exec) candidates(fr *Frame, phis []*ssa.Phi, mod []hslot, st0 *State) []*cand {
	if x.rootC == nil {
		return nil
	}
	type slot = func(phis []Val, st *State) any
	slots := map[byte][]slot{}
	for i, p := range phis {
		i := i
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsInteger != 0:
				slots['n'] = append(slots['n'], func(ps []Val, st *State) any { return ps[i][0] })
				slots['k'] = append(slots['k'], func(ps []Val, st *State) any { return ps[i][0] },
					func(ps []Val, st *State) any { return mkAdd(ps[i][0], mkInt(1)) })
			case u.Info()&types.IsBoolean != 0:
				slots['b'] = append(slots['b'], func(ps []Val, st *State) any { return ps[i][0] })
			case u.Info()&types.IsString != 0:
				slots['s'] = append(slots['s'], func(ps []Val, st *State) any { return ps[i][0] })
			}
		case *types.Slice:
			t := p.Type()
			slots['q'] = append(slots['q'], func(ps []Val, st *State) any { return &TV{x, t, ps[i], st} })
		}
	}
	for _, m := range mod {
		m := m
		if m.ref == nil {
			continue
		}
		switch {
		case m.key == "IT":
			slots['k'] = append(slots['k'], func(ps []Val, st *State) any { return x.rd(st, "IT", SInt, m.ref) })
		case strings.HasPrefix(m.key, "MP:"), strings.HasPrefix(m.key, "MV:") && m.srt.v == SBool:
			slots['m'] = append(slots['m'], func(ps []Val, st *State) any { return &ArrV{x.rd(st, m.key, m.srt, m.ref)} })
		case strings.HasPrefix(m.key, "UV:p"):
			slots['u'] = append(slots['u'], func(ps []Val, st *State) any { return &UVV{x, m.ref, st} })
		case m.srt == SStr:
			slots['s'] = append(slots['s'], func(ps []Val, st *State) any { return x.rd(st, m.key, SStr, m.ref) })
		case m.srt == SBool:
			slots['b'] = append(slots['b'], func(ps []Val, st *State) any { return x.rd(st, m.key, SBool, m.ref) })
		case m.srt == SInt:
			slots['k'] = append(slots['k'], func(ps []Val, st *State) any { return x.rd(st, m.key, SInt, m.ref) })
		}
	}
	var out []*cand
	type template struct {
		cl   *spec.Clause
		base *spec.Env
	}
	var ts []template
	for _, cl := range x.rootC.Clauses {
		ts = append(ts, template{cl, nil})
	}
	// the function executed through its body inside the root brings its own
	for i := len(x.stack) - 1; i > 0; i-- {
		f := x.stack[i]
		c := x.set.FuncContract(funcName(f.fn))
		if c == nil {
			continue
		}
		var env *spec.Env
		for j, p := range f.fn.Params {
			n := p.Name()
			if j < len(c.Params) {
				n = c.Params[j]
			}
			env = env.With(n, &TV{x, p.Type(), f.env[p], f.entry})
		}
		for _, cl := range c.Clauses {
			ts = append(ts, template{cl, env})
		}
		break
	}
	for _, t := range ts {
		cl, base := t.cl, t.base
		if cl.Kind != "invariant" {
			continue
		}
		mv := map[string]bool{}
		metavars(cl.E, mv)
		var names []string
		for n := range mv {
			names = append(names, n)
		}
		sort.Strings(names)
		var rec func(i int, b map[string]slot)
		rec = func(i int, b map[string]slot) {
			if len(out) > 400 {
				return
			}
			if i == len(names) {
				c := map[string]func([]Val, *State) any{}
				for k, v := range b {
					c[k] = v
				}
				out = append(out, &cand{cl: cl, bind: c, base: base})
				return
			}
			for _, s := range slots[names[i][1]] {
				b[names[i]] = s
				rec(i+1, b)
			}
		}
		rec(0, map[string]slot{})
	}
	return out
}
