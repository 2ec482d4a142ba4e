package main

import (
	"fmt"
	"go/types"
	"strings"
)

// State is a path-merged symbolic machine state.
type State struct {
	pc   *Term
	heap map[string]*Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{s.pc, h}
}

func (s *State) with(c *Term) *State {
	n := s.clone()
	n.pc = mkAnd(s.pc, c)
	return n
}

func heapSort(s *Sort) *Sort { return SArr(SRef, s) }

func heapArr(h map[string]*Term, key string, s *Sort) *Term {
	if a := h[key]; a != nil {
		return a
	}
	if strings.HasSuffix(key, "#off") {
		return mkKArr(heapSort(s), zeroOf(s))
	}
	return mkConst("H:"+key, heapSort(s))
}

func (x *Exec) rd(st *State, key string, s *Sort, ref *Term) *Term {
	t := mkSelect(heapArr(st.heap, key, s), ref)
	switch {
	case key == "SB" && t.op == "select" && t.args[0].op == "const" && t.args[0].s == "H:SB" && ref.op == "lit" && x.ownAlloc[ref]:
		return TEmpty // a new builder, buffer or hash
	case ref == TNil && strings.HasPrefix(key, "E:"):
		return mkKArr(s, zeroOf(s.v)) // no elements
	}
	return t
}

func (x *Exec) wr(st *State, key string, s *Sort, ref, v *Term) {
	if v.sort != s {
		panic(fmt.Sprintf("heap write %s: sort %s, want %s (%s)", key, v.sort.name, s.name, v.Str()))
	}
	x.noteWrite(st, key, ref)
	st.heap[key] = mkStore(heapArr(st.heap, key, s), ref, v)
}

// Write is a heap write through a reference that the code did not allocate.
type Write struct {
	key   string
	ref   *Term
	guard *Term
	where string
}

func (x *Exec) noteWrite(st *State, key string, ref *Term) {
	x.nWrites++
	for _, l := range leavesOf(ref) {
		if l.t.op == "lit" {
			if strings.HasPrefix(l.t.s, "o") && x.ownAlloc[l.t] {
				continue
			}
			if l.t == TNil {
				continue
			}
		}
		g := mkAnd(st.pc, l.g)
		if g == TFalse {
			continue
		}
		x.writes = append(x.writes, &Write{key, l.t, g, x.where()})
	}
}

// ---- addresses ----

// parseAddr splits an address term.
func parseAddr(p *Term) (kind, owner, path string) {
	if isAddr(p) {
		kind = p.s[:5]
		rest := p.s[6:]
		i := strings.LastIndexByte(rest, '|')
		return kind, rest[:i], rest[i+1:]
	}
	return "", "", ""
}

func joinPath(a, b string) string {
	switch {
	case a == "":
		return b
	case b == "":
		return a
	}
	return a + "." + b
}

// cellKey is the heap map that stores leaf l of an object of type t referenced directly.
func cellKey(t types.Type, l Leaf) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !opaqueStruct(t) {
			return "F:" + typeName(t) + "." + l.path
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return "B"
		}
		return "E:" + typeName(u.Elem()) + ":" + strings.TrimPrefix(l.path, "[]")
	}
	return "C:" + typeName(t) + ":" + l.path
}

func mkFieldAddr(x *Exec, p *Term, st types.Type, field string) *Term {
	if p.op == "ite" {
		return mkIte(p.args[0], mkFieldAddr(x, p.args[1], st, field), mkFieldAddr(x, p.args[2], st, field))
	}
	if k, owner, path := parseAddr(p); k != "" {
		return mk("uf", SRef, k+":"+owner+"|"+joinPath(path, field), 0, p.args, nil)
	}
	return mk("uf", SRef, "faddr:"+typeName(st)+"|"+field, 0, []*Term{p}, nil)
}

func mkElemAddr(p *Term, elem types.Type, idx *Term) *Term {
	if p.op == "ite" {
		return mkIte(p.args[0], mkElemAddr(p.args[1], elem, idx), mkElemAddr(p.args[2], elem, idx))
	}
	return mk("uf", SRef, "eaddr:"+typeName(elem)+"|", 0, []*Term{p, idx}, nil)
}

// load reads a value of type t through pointer p.
func (x *Exec) load(st *State, p *Term, t types.Type) Val {
	if p.op == "ite" {
		return iteVal(p.args[0], x.load(st, p.args[1], t), x.load(st, p.args[2], t))
	}
	var v Val
	kind, owner, path := parseAddr(p)
	for _, l := range leavesOfType(t) {
		switch kind {
		case "faddr":
			v = append(v, x.rd(st, "F:"+owner+"."+joinPath(path, l.path), l.sort, p.args[0]))
		case "eaddr":
			if owner == "byte" || owner == "uint8" {
				v = append(v, mkUF("byteat", SInt, x.rd(st, "B", SStr, p.args[0]), p.args[1]))
				continue
			}
			a := x.rd(st, "E:"+owner+":"+joinPath(path, l.path), SArr(SInt, l.sort), p.args[0])
			v = append(v, mkSelect(a, p.args[1]))
		default:
			v = append(v, x.rd(st, cellKey(t, l), l.sort, p))
		}
	}
	return v
}

// store writes v of type t through pointer p.
func (x *Exec) store(st *State, p *Term, t types.Type, v Val) {
	ls := leavesOfType(t)
	if len(ls) != len(v) {
		panic(fmt.Sprintf("store %s: %d leaves, %d values", typeName(t), len(ls), len(v)))
	}
	if p.op == "ite" {
		lv := leavesOf(p)
		for _, l := range lv {
			old := x.load(st, l.t, t)
			x.store(st, l.t, t, iteVal(l.g, v, old))
		}
		return
	}
	kind, owner, path := parseAddr(p)
	for i, l := range ls {
		switch kind {
		case "faddr":
			x.wr(st, "F:"+owner+"."+joinPath(path, l.path), l.sort, p.args[0], v[i])
		case "eaddr":
			if owner == "byte" || owner == "uint8" {
				x.wr(st, "B", SStr, p.args[0], mkUF("setbyte", SStr, x.rd(st, "B", SStr, p.args[0]), p.args[1], v[i]))
				continue
			}
			key := "E:" + owner + ":" + joinPath(path, l.path)
			as := SArr(SInt, l.sort)
			a := x.rd(st, key, as, p.args[0])
			x.wr(st, key, as, p.args[0], mkStore(a, p.args[1], v[i]))
		default:
			x.wr(st, cellKey(t, l), l.sort, p, v[i])
		}
	}
}

// alloc makes a fresh zeroed object of type t.
func (x *Exec) alloc(st *State, t types.Type, hint string) *Term {
	r := x.newRef(hint)
	for i, l := range leavesOfType(t) {
		z := zeroVal(t)[i]
		if u, ok := t.Underlying().(*types.Array); ok && isByte(u.Elem()) {
			z = mkStr(strings.Repeat("\x00", int(u.Len())))
		}
		x.wr(st, cellKey(t, l), l.sort, r, z)
	}
	return r
}

func (x *Exec) newRef(hint string) *Term {
	x.nAlloc++
	r := mkLit(fmt.Sprintf("o%d:%s", x.nAlloc, hint))
	x.ownAlloc[r] = true
	return r
}

// ---- slices ----

func (x *Exec) sliceArr(st *State, elem types.Type, l Leaf, ref *Term) *Term {
	return x.rd(st, "E:"+typeName(elem)+":"+l.path, SArr(SInt, l.sort), ref)
}

// newSlice allocates a slice with explicit element values.
func (x *Exec) newSlice(st *State, elem types.Type, vals []Val) Val {
	r := x.newRef("[]" + typeName(elem))
	for li, l := range leavesOfType(elem) {
		a := mkKArr(SArr(SInt, l.sort), zeroOf(l.sort))
		for i, v := range vals {
			a = mkStore(a, mkInt(int64(i)), v[li])
		}
		x.wr(st, "E:"+typeName(elem)+":"+l.path, a.sort, r, a)
	}
	return Val{r, mkInt(0), mkInt(int64(len(vals)))}
}

// newStrSlice allocates a []string with symbolic contents.
func (x *Exec) newStrSlice(st *State, arr, n *Term) Val {
	r := x.newRef("[]string")
	x.wr(st, "E:string:", SStrArr, r, arr)
	return Val{r, mkInt(0), n}
}

// strSlice gives the content array of a []string value.
func (x *Exec) strSlice(st *State, v Val) *Term {
	return x.rd(st, "E:string:", SStrArr, v[0])
}

// sliceElems lists the elements of a slice whose length is a literal.
func (x *Exec) sliceElems(st *State, v Val, elem types.Type) ([]Val, bool) {
	if v[2].op != "int" || v[2].n > 64 {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < v[2].n; i++ {
		var e Val
		for _, l := range leavesOfType(elem) {
			e = append(e, mkSelect(x.sliceArr(st, elem, l, v[0]), mkAdd(v[1], mkInt(i))))
		}
		out = append(out, e)
	}
	return out, true
}

// bytes as strings

func (x *Exec) bytesOf(st *State, v Val) *Term {
	if v[0].op == "ite" {
		// one slice per origin
		c := v[0].args[0]
		t, f := map[*Term]*Term{c: TTrue}, map[*Term]*Term{c: TFalse}
		return mkIte(c, x.bytesOf(st, Val{v[0].args[1], subst(v[1], t), subst(v[2], t)}), x.bytesOf(st, Val{v[0].args[2], subst(v[1], f), subst(v[2], f)}))
	}
	c := x.rd(st, "B", SStr, v[0])
	if v[2].op == "int" && v[2].n == 0 {
		return TEmpty
	}
	return mkPure("substr", c, v[1], mkAdd(v[1], v[2]))
}

func (x *Exec) newBytes(st *State, s *Term) Val {
	r := x.newRef("[]byte")
	x.wr(st, "B", SStr, r, s)
	return Val{r, mkInt(0), mkPure("slen", s)}
}

// ---- maps ----

func mapKeySort(m *types.Map) *Sort {
	ls := leavesOfType(m.Key())
	if len(ls) != 1 {
		return SRef
	}
	return ls[0].sort
}

func mapName(m *types.Map) string { return typeName(m) }

func (x *Exec) mapPres(st *State, m *types.Map, ref *Term) *Term {
	return x.rd(st, "MP:"+mapName(m), SArr(mapKeySort(m), SBool), ref)
}

func (x *Exec) mapVal(st *State, m *types.Map, l Leaf, ref *Term) *Term {
	return x.rd(st, "MV:"+mapName(m)+":"+l.path, SArr(mapKeySort(m), l.sort), ref)
}

func (x *Exec) newMap(st *State, m *types.Map) *Term {
	r := x.newRef("map")
	ks := mapKeySort(m)
	x.wr(st, "MP:"+mapName(m), SArr(ks, SBool), r, mkKArr(SArr(ks, SBool), TFalse))
	for _, l := range leavesOfType(m.Elem()) {
		x.wr(st, "MV:"+mapName(m)+":"+l.path, SArr(ks, l.sort), r, mkKArr(SArr(ks, l.sort), zeroOf(l.sort)))
	}
	return r
}

func (x *Exec) mapPut(st *State, m *types.Map, ref, k *Term, v Val) {
	ks := mapKeySort(m)
	for _, l := range leavesOf(ref) {
		if l.t == TNil {
			continue
		}
		g := l.g
		p := x.mapPres(st, m, l.t)
		x.wr(st, "MP:"+mapName(m), SArr(ks, SBool), l.t, mkIte(g, mkStore(p, k, TTrue), p))
		for i, lf := range leavesOfType(m.Elem()) {
			a := x.mapVal(st, m, lf, l.t)
			x.wr(st, "MV:"+mapName(m)+":"+lf.path, SArr(ks, lf.sort), l.t, mkIte(g, mkStore(a, k, v[i]), a))
		}
	}
}

func (x *Exec) mapDel(st *State, m *types.Map, ref, k *Term) {
	ks := mapKeySort(m)
	p := x.mapPres(st, m, ref)
	x.wr(st, "MP:"+mapName(m), SArr(ks, SBool), ref, mkStore(p, k, TFalse))
	for _, lf := range leavesOfType(m.Elem()) {
		a := x.mapVal(st, m, lf, ref)
		x.wr(st, "MV:"+mapName(m)+":"+lf.path, SArr(ks, lf.sort), ref, mkStore(a, k, zeroOf(lf.sort)))
	}
}

// mapGet returns presence and value (zero when absent).
func (x *Exec) mapGet(st *State, m *types.Map, ref, k *Term) (*Term, Val) {
	if ref.op == "ite" {
		p1, v1 := x.mapGet(st, m, ref.args[1], k)
		p2, v2 := x.mapGet(st, m, ref.args[2], k)
		return mkIte(ref.args[0], p1, p2), iteVal(ref.args[0], v1, v2)
	}
	if ref == TNil {
		return TFalse, zeroVal(m.Elem())
	}
	p := mkSelect(x.mapPres(st, m, ref), k)
	if ref.op != "lit" {
		p = mkAnd(mkNot(mkEq(ref, TNil)), p)
	}
	var v Val
	for _, l := range leavesOfType(m.Elem()) {
		e := mkSelect(x.mapVal(st, m, l, ref), k)
		v = append(v, mkIte(p, e, zeroOf(l.sort)))
	}
	return p, v
}

// ---- merging ----

type inState struct {
	st *State
	v  Val // optional attached value
}

// mergeStates joins states at a control-flow merge.
func mergeStates(ins []inState) (*State, Val) {
	var live []inState
	for _, i := range ins {
		if i.st != nil && i.st.pc != TFalse {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		if len(ins) > 0 {
			return &State{TFalse, ins[0].st.heap}, ins[0].v
		}
		return &State{TFalse, map[string]*Term{}}, nil
	}
	if len(live) == 1 {
		return live[0].st.clone(), live[0].v
	}
	var pcs []*Term
	for _, i := range live {
		pcs = append(pcs, i.st.pc)
	}
	pc := mkOr(pcs...)
	conds := relConds(pcs)
	acc := live[len(live)-1]
	h := map[string]*Term{}
	for k, v := range acc.st.heap {
		h[k] = v
	}
	v := acc.v
	for i := len(live) - 2; i >= 0; i-- {
		c := conds[i]
		o := live[i]
		for k, a := range o.st.heap {
			if b, ok := h[k]; ok {
				if a != b {
					h[k] = mkIte(c, a, b)
				}
			} else {
				h[k] = mkIte(c, a, heapArr(nil, k, a.sort.v))
			}
		}
		for k, b := range h {
			if _, ok := o.st.heap[k]; !ok {
				h[k] = mkIte(c, heapArr(nil, k, b.sort.v), b)
			}
		}
		if v != nil {
			v = iteVal(c, o.v, v)
		}
	}
	return &State{pc, h}, v
}

// relConds strips the conjuncts shared by all path conditions.
func relConds(pcs []*Term) []*Term {
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conj(p) {
			cnt[c]++
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var r []*Term
		for _, c := range conj(p) {
			if cnt[c] < len(pcs) {
				r = append(r, c)
			}
		}
		out[i] = mkAnd(r...)
	}
	return out
}
