package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif.local/spec"
)

// TV is a Go value seen by a contract, read in the state where it was observed.
type TV struct {
	x   *Exec
	typ types.Type
	v   Val
	st  *State
}

// HdrV is a snapshot of the response header.
type HdrV struct {
	x  *Exec
	st *State
}

// ArrV is a key-presence array.
type ArrV struct{ t *Term }

// UVV is a url.Values object under construction.
type UVV struct {
	x   *Exec
	ref *Term
	st  *State
}

// symBackend evaluates contract expressions to terms.
type symBackend struct {
	x  *Exec
	st *State
}

var boundVars int

func (b *symBackend) Bool(v bool) spec.Value  { return mkBool(v) }
func (b *symBackend) Int(n int64) spec.Value  { return mkInt(n) }
func (b *symBackend) Str(s string) spec.Value { return mkStr(s) }
func (b *symBackend) Nil() spec.Value         { return TNil }
func (b *symBackend) Events() []spec.EventRef {
	var r []spec.EventRef
	for _, e := range b.x.events {
		r = append(r, e)
	}
	return r
}

func (b *symBackend) IsConst(v spec.Value) (bool, bool) {
	t, err := b.term(v)
	if err != nil || !t.isConst() {
		return false, false
	}
	return t == TTrue, true
}

func (b *symBackend) bool(v spec.Value) *Term {
	t, err := b.term(v)
	if err != nil {
		panic(err)
	}
	if t.sort != SBool {
		panic(fmt.Errorf("not a truth value: %s", t.Str()))
	}
	return t
}

func (b *symBackend) Not(v spec.Value) spec.Value    { return mkNot(b.bool(v)) }
func (b *symBackend) And(x, y spec.Value) spec.Value { return mkAnd(b.bool(x), b.bool(y)) }
func (b *symBackend) Or(x, y spec.Value) spec.Value  { return mkOr(b.bool(x), b.bool(y)) }

func (b *symBackend) Ite(c, x, y spec.Value) (spec.Value, error) {
	tx, err := b.term(x)
	if err != nil {
		return nil, err
	}
	ty, err := b.term(y)
	if err != nil {
		return nil, err
	}
	return mkIte(b.bool(c), tx, ty), nil
}

// term reduces a value to one scalar.
func (b *symBackend) term(v spec.Value) (*Term, error) {
	switch t := v.(type) {
	case *Term:
		return t, nil
	case *TV:
		if len(t.v) == 1 {
			return t.v[0], nil
		}
		if isByteSlice(t.typ) {
			return t.x.bytesOf(t.st, t.v), nil
		}
		return nil, fmt.Errorf("value of type %s is not scalar", typeName(t.typ))
	}
	return nil, fmt.Errorf("%T is not a scalar", v)
}

func (b *symBackend) isNilV(v spec.Value) (*Term, error) {
	if t, ok := v.(*TV); ok {
		return mkEq(t.v[0], TNil), nil
	}
	t, err := b.term(v)
	if err != nil {
		return nil, err
	}
	return mkEq(t, TNil), nil
}

func (b *symBackend) Bin(op string, x, y spec.Value) (spec.Value, error) {
	switch op {
	case "==", "!=":
		e, err := b.eq(x, y)
		if err != nil {
			return nil, err
		}
		if op == "!=" {
			e = mkNot(e)
		}
		return e, nil
	}
	tx, err := b.term(x)
	if err != nil {
		return nil, err
	}
	ty, err := b.term(y)
	if err != nil {
		return nil, err
	}
	want := SInt
	if op == "++" {
		want = SStr
	}
	if tx.sort != want || ty.sort != want {
		return nil, fmt.Errorf("operator %s on %s and %s", op, tx.sort.name, ty.sort.name)
	}
	switch op {
	case "<":
		return mkLt(tx, ty), nil
	case "<=":
		return mkLe(tx, ty), nil
	case ">":
		return mkLt(ty, tx), nil
	case ">=":
		return mkLe(ty, tx), nil
	case "+":
		return mkAdd(tx, ty), nil
	case "-":
		return mkSub(tx, ty), nil
	case "*":
		return mkMul(tx, ty), nil
	case "++":
		return mkCat(tx, ty), nil
	}
	return nil, fmt.Errorf("unknown operator %s", op)
}

func (b *symBackend) eq(x, y spec.Value) (*Term, error) {
	if y == TNil {
		return b.isNilV(x)
	}
	if x == TNil {
		return b.isNilV(y)
	}
	tx, okx := x.(*TV)
	ty, oky := y.(*TV)
	if okx && oky && len(tx.v) == len(ty.v) && !isByteSlice(tx.typ) {
		r := TTrue
		for i := range tx.v {
			if tx.v[i].sort != ty.v[i].sort {
				return nil, fmt.Errorf("== on %s and %s", typeName(tx.typ), typeName(ty.typ))
			}
			r = mkAnd(r, mkEq(tx.v[i], ty.v[i]))
		}
		return r, nil
	}
	a, err := b.term(x)
	if err != nil {
		return nil, err
	}
	c, err := b.term(y)
	if err != nil {
		return nil, err
	}
	if a.sort == SRef && c.sort != SRef {
		c = boxScalar(c)
	}
	if c.sort == SRef && a.sort != SRef {
		a = boxScalar(a)
	}
	if a.sort != c.sort {
		return nil, fmt.Errorf("== on %s and %s", a.sort.name, c.sort.name)
	}
	return mkEq(a, c), nil
}

func boxScalar(t *Term) *Term {
	switch t.sort {
	case SStr:
		return boxVal(types.Typ[types.String], Val{t})
	case SInt:
		return boxVal(types.Typ[types.Int64], Val{t})
	case SBool:
		return boxVal(types.Typ[types.Bool], Val{t})
	}
	return t
}

func (b *symBackend) Field(v spec.Value, name string) (spec.Value, error) {
	t, ok := v.(*TV)
	if !ok {
		return nil, fmt.Errorf("%T has no field %s", v, name)
	}
	return t.field(name)
}

func (t *TV) field(name string) (spec.Value, error) {
	switch u := t.typ.Underlying().(type) {
	case *types.Pointer:
		el := u.Elem()
		ft := fieldType(el, name)
		if ft == nil {
			return nil, fmt.Errorf("%s has no field %s", typeName(t.typ), name)
		}
		return &TV{t.x, ft, t.x.load(t.st, mkFieldAddr(t.x, t.v[0], el, name), ft), t.st}, nil
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				lo, hi := fieldRange(u, i)
				return &TV{t.x, u.Field(i).Type(), t.v[lo:hi], t.st}, nil
			}
		}
	case *types.Slice:
		if name == "len" {
			return t.v[2], nil
		}
	}
	return nil, fmt.Errorf("%s has no field %s", typeName(t.typ), name)
}

func (b *symBackend) Method(v spec.Value, name string, args []spec.Value) (spec.Value, error) {
	switch t := v.(type) {
	case *Event:
		f, err := t.EvField(name)
		if err != nil {
			return nil, err
		}
		if h, ok := f.(*HdrV); ok {
			k, err := b.term(args[0])
			if err != nil {
				return nil, err
			}
			return h.get(k), nil
		}
		return b.Call("get", append([]spec.Value{f}, args...))
	case *TV:
		var vals []Val
		for _, a := range args {
			if tv, ok := a.(*TV); ok {
				vals = append(vals, tv.v)
				continue
			}
			s, err := b.term(a)
			if err != nil {
				return nil, err
			}
			vals = append(vals, Val{s})
		}
		return t.method(name, vals)
	}
	return nil, fmt.Errorf("no method %s on %T", name, v)
}

func (t *TV) method(name string, args []Val) (spec.Value, error) {
	x := t.x
	obj, _, _ := types.LookupFieldOrMethod(t.typ, true, nil, name)
	m, ok := obj.(*types.Func)
	if !ok {
		// unexported lookups need the package
		if n := namedOf(t.typ); n != nil {
			obj, _, _ = types.LookupFieldOrMethod(t.typ, true, n.Obj().Pkg(), name)
			m, ok = obj.(*types.Func)
		}
		if !ok {
			return nil, fmt.Errorf("%s has no method %s", typeName(t.typ), name)
		}
	}
	sig := m.Type().(*types.Signature)
	if sig.Params().Len() != len(args) {
		return nil, fmt.Errorf("%s.%s wants %d arguments", typeName(t.typ), name, sig.Params().Len())
	}
	var r Val
	after := t.st
	if isIface(t.typ) {
		r = x.traceless(func(st *State) Val {
			v, s := x.invoke(t.v[0], t.typ, m, args, st)
			after = s
			return v
		}, t.st)
	} else {
		f := x.lookupMethod(t.typ, m.Pkg(), name)
		if f == nil {
			return nil, fmt.Errorf("no body for %s.%s", typeName(t.typ), name)
		}
		r, after = x.pureCall(f, append([]Val{t.v}, args...), t.st.clone())
	}
	if sig.Results().Len() != 1 {
		return nil, fmt.Errorf("%s.%s does not have one result", typeName(t.typ), name)
	}
	if after == nil {
		after = t.st
	}
	return &TV{x, sig.Results().At(0).Type(), r, after}, nil
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// traceless evaluates without leaving events or obligations.
func (x *Exec) traceless(f func(st *State) Val, st *State) Val {
	ne, no, nw, nu, lost := len(x.events), len(x.obls), len(x.writes), len(x.unsup), x.lost
	cnt := map[string]int{}
	for k, v := range x.evCount {
		cnt[k] = v
	}
	v := f(st.clone())
	x.events, x.obls, x.writes, x.unsup, x.lost = x.events[:ne], x.obls[:no], x.writes[:nw], x.unsup[:nu], lost
	x.evCount = cnt
	return v
}

func (h *HdrV) get(k *Term) *Term {
	w := h.x.rootVars["w"]
	if w == nil {
		return TEmpty
	}
	ref := mkUF("whdr", SRef, w.(*TV).v[0])
	return mkSelect(h.x.rd(h.st, "HDR:v", SStrMap, ref), canonHeader(k))
}

func (b *symBackend) terms(args []spec.Value) ([]*Term, error) {
	var r []*Term
	for _, a := range args {
		t, err := b.term(a)
		if err != nil {
			return nil, err
		}
		r = append(r, t)
	}
	return r, nil
}

// specTab are contract functions over scalars.
var specTab = map[string]func(x *Exec, st *State, a []*Term) *Term{}

func (b *symBackend) Call(name string, args []spec.Value) (spec.Value, error) {
	x := b.x
	if len(args) == 0 && name != "now" {
		if v, ok := x.rootVars[name]; ok {
			return v, nil
		}
	}
	switch name {
	case "get", "has":
		return b.getHas(name, args)
	case "isnil":
		return b.isNilV(args[0])
	case "jsonmap": // jsonmap(m): the JSON text of a map with string keys
		t, ok := args[0].(*TV)
		if !ok || len(t.v) != 1 {
			return nil, fmt.Errorf("jsonmap wants a map")
		}
		return x.jsonOf(t.st, t.typ, t.v, TTrue), nil
	case "sprintf": // sprintf(format, a): what fmt.Sprintf makes of an unknown format and a string
		as, err := b.terms(args)
		if err != nil {
			return nil, err
		}
		vs := []*Term{}
		for _, a := range as[1:] {
			vs = append(vs, mkBox("string", []*Term{a}))
		}
		return x.sprintf(x.st0, as[0], vs, true), nil
	case "bytes":
		return b.term(args[0])
	case "len":
		if t, ok := args[0].(*TV); ok && len(t.v) == 3 {
			return t.v[2], nil
		}
		t, err := b.term(args[0])
		if err != nil {
			return nil, err
		}
		return mkPure("slen", t), nil
	case "at":
		t, ok := args[0].(*TV)
		if !ok {
			return nil, fmt.Errorf("at wants a slice")
		}
		i, err := b.term(args[1])
		if err != nil {
			return nil, err
		}
		el := t.typ.Underlying().(*types.Slice).Elem()
		var v Val
		for _, l := range leavesOfType(el) {
			v = append(v, mkSelect(x.sliceArr(t.st, el, l, t.v[0]), mkAdd(t.v[1], i)))
		}
		return &TV{x, el, v, t.st}, nil
	case "within": // within(slice, n, x): x occurs among the first n elements
		t, ok := args[0].(*TV)
		if !ok {
			return nil, fmt.Errorf("within wants a slice")
		}
		n, err := b.term(args[1])
		if err != nil {
			return nil, err
		}
		s, err := b.term(args[2])
		if err != nil {
			return nil, err
		}
		arr := x.strSlice(t.st, t.v)
		if t.v[1] != mkInt(0) {
			arr = mkUF("shift", arr.sort, arr, t.v[1])
		}
		return mkPre(arr, n, s), nil
	case "samelist": // samelist(slice, arr, n): the slice is exactly the first n of a ghost list
		t, ok := args[0].(*TV)
		if !ok {
			return nil, fmt.Errorf("samelist wants a slice")
		}
		a, err := b.terms(args[1:])
		if err != nil {
			return nil, err
		}
		if t.v[2] == mkInt(0) {
			return mkEq(a[1], mkInt(0)), nil // what lies behind the end cannot be seen
		}
		return mkAnd(mkEq(t.v[2], a[1]), mkEq(x.strSlice(t.st, t.v), a[0]), mkEq(t.v[1], mkInt(0))), nil
	case "mem": // mem(m, k) for loop-local key sets
		a, ok := args[0].(*ArrV)
		if !ok {
			return b.getHas("has", args)
		}
		k, err := b.term(args[1])
		if err != nil {
			return nil, err
		}
		return mkSelect(a.t, k), nil
	case "uvhas", "uvget":
		u, ok := args[0].(*UVV)
		if !ok {
			return nil, fmt.Errorf("%s wants url.Values", name)
		}
		k, err := b.term(args[1])
		if err != nil {
			return nil, err
		}
		p, v := x.uvGet(u.st, u.ref, k)
		if name == "uvhas" {
			return p, nil
		}
		return v, nil
	case "order":
		if len(x.ranges) == 0 || x.ranges[len(x.ranges)-1].order == nil {
			return nil, fmt.Errorf("no map iteration")
		}
		return x.ranges[len(x.ranges)-1].order, nil
	case "card":
		if len(x.ranges) == 0 || x.ranges[len(x.ranges)-1].n == nil {
			return nil, fmt.Errorf("no map iteration")
		}
		return x.ranges[len(x.ranges)-1].n, nil
	case "rowsat", "iterhas", "iterget": // the map iterated last: form rows of its first k keys, its keys, its values
		if len(x.ranges) == 0 || x.ranges[len(x.ranges)-1].order == nil {
			return nil, fmt.Errorf("no map iteration")
		}
		ri := x.ranges[len(x.ranges)-1]
		if len(ri.val) != 1 || ri.val[0].sort != SStrMap {
			return nil, fmt.Errorf("iteration over another map type")
		}
		as, err := b.terms(args)
		if err != nil {
			return nil, err
		}
		a := as[0]
		switch name {
		case "rowsat": // rowsat(k, head, mid, tail): head key mid value tail, escaped, for each of the first k keys
			return mkUF("rows", SStr, ri.order, a, ri.val[0], as[1], as[2], as[3]), nil
		case "iterhas":
			return mkSelect(ri.pres, a), nil
		}
		return mkSelect(ri.val[0], a), nil
	case "seen": // seen(k, s): s is among the first k keys
		if len(x.ranges) == 0 || x.ranges[len(x.ranges)-1].order == nil {
			return nil, fmt.Errorf("no map iteration")
		}
		a, err := b.terms(args)
		if err != nil {
			return nil, err
		}
		return mkPre(x.ranges[len(x.ranges)-1].order, a[0], a[1]), nil
	case "uencmap": // the query encoding of a string map
		t, ok := args[0].(*TV)
		if !ok {
			return nil, fmt.Errorf("uencmap wants a map")
		}
		m := t.typ.Underlying().(*types.Map)
		return mkUF("uenc", SStr, x.mapPres(t.st, m, t.v[0]), x.mapVal(t.st, m, leavesOfType(m.Elem())[0], t.v[0])), nil
	case "uenc": // uenc(k1, v1, k2, v2...): pairs with a nil key marker are skipped by callers
		p, v := mkKArr(SStrSet, TFalse), mkKArr(SStrMap, TEmpty)
		a, err := b.terms(args)
		if err != nil {
			return nil, err
		}
		for i := 0; i+2 < len(a)+1; i += 3 {
			p = mkStore(p, a[i], a[i+1])
			v = mkStore(v, a[i], mkIte(a[i+1], a[i+2], TEmpty))
		}
		return mkUF("uenc", SStr, p, v), nil
	}
	a, err := b.terms(args)
	if err != nil {
		return nil, err
	}
	if f := specTab[name]; f != nil {
		t := f(x, b.st, a)
		if t == nil {
			return nil, fmt.Errorf("%s: bad arguments", name)
		}
		return t, nil
	}
	if s := pureSort[name]; s != nil {
		return mkPure(name, a...), nil
	}
	return nil, fmt.Errorf("unknown name %s", name)
}

func (b *symBackend) getHas(name string, args []spec.Value) (spec.Value, error) {
	if len(args) != 2 {
		return nil, fmt.Errorf("%s wants a map and a key", name)
	}
	t, ok := args[0].(*TV)
	if !ok {
		return nil, fmt.Errorf("%s of %T", name, args[0])
	}
	k, err := b.term(args[1])
	if err != nil {
		return nil, err
	}
	m, ok := t.typ.Underlying().(*types.Map)
	if !ok {
		return nil, fmt.Errorf("%s of %s", name, typeName(t.typ))
	}
	p, v := t.x.mapGet(t.st, m, t.v[0], k)
	if name == "has" {
		return p, nil
	}
	return &TV{t.x, m.Elem(), v, t.st}, nil
}

func (b *symBackend) Range(forall bool, kind string, lo, hi spec.Value, body func(spec.Value) (spec.Value, error)) (spec.Value, error) {
	if kind == "int" {
		l, err := b.term(lo)
		if err != nil {
			return nil, err
		}
		h, err := b.term(hi)
		if err != nil {
			return nil, err
		}
		if l.op == "int" && h.op == "int" && h.n-l.n <= 32 {
			acc := mkBool(forall)
			for i := l.n; i < h.n; i++ {
				v, err := body(mkInt(i))
				if err != nil {
					return nil, err
				}
				if forall {
					acc = mkAnd(acc, b.bool(v))
				} else {
					acc = mkOr(acc, b.bool(v))
				}
			}
			return acc, nil
		}
		boundVars++
		i := mkConst(fmt.Sprintf("?i%d", boundVars), SInt)
		openB[i] = true
		v, err := body(i)
		delete(openB, i)
		if err != nil {
			return nil, err
		}
		in := mkAnd(mkLe(l, i), mkLt(i, h))
		if forall {
			return mkForall([]*Term{i}, mkImp(in, b.bool(v))), nil
		}
		return mkExists([]*Term{i}, mkAnd(in, b.bool(v))), nil
	}
	if kind != "string" {
		return nil, fmt.Errorf("quantifier over %s", kind)
	}
	boundVars++
	s := mkConst(fmt.Sprintf("?s%d", boundVars), SStr)
	openB[s] = true
	v, err := body(s)
	delete(openB, s)
	if err != nil {
		return nil, err
	}
	if forall {
		return mkForall([]*Term{s}, b.bool(v)), nil
	}
	return mkExists([]*Term{s}, b.bool(v)), nil
}

var (
	SStrSet = SArr(SStr, SBool)
	SStrMap = SArr(SStr, SStr)
)

func (x *Exec) rootRef(n string) *Term {
	if v, ok := x.rootVars[n].(*TV); ok {
		return v.v[0]
	}
	return nil
}

func init() {
	T := specTab
	T["form"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("form", SStr, a[0]) }
	T["postform"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("postform", SStr, a[0]) }
	T["reqhdr"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkSelect(x.rd(x.st0, "HDR:v", SStrMap, x.reqHdr(x.st0)), canonHeader(a[0]))
	}
	T["reqhdr2"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkSelect(x.rd(st, "HDR:v", SStrMap, x.reqHdr(st)), canonHeader(a[0]))
	}
	T["canon"] = func(x *Exec, st *State, a []*Term) *Term { return canonHeader(a[0]) }
	T["hdrafter"] = func(x *Exec, st *State, a []*Term) *Term {
		return (&HdrV{x, st}).get(a[0])
	}
	auth := func(x *Exec) *Term { return specTab["reqhdr"](x, nil, []*Term{mkStr("Authorization")}) }
	T["basicok"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("basicok", SBool, auth(x)) }
	T["basicuser"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkIte(mkUF("basicok", SBool, auth(x)), mkUF("basicuser", SStr, auth(x)), TEmpty)
	}
	T["basicpass"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkIte(mkUF("basicok", SBool, auth(x)), mkUF("basicpass", SStr, auth(x)), TEmpty)
	}
	T["now"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("unix", SInt, mkConst("now", SRef)) }
	T["unix"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("unix", SInt, a[0]) }
	T["intok"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkPre(splitArr(a[0], mkStr(" ")), splitLen(a[0], mkStr(" ")), a[1])
	}
	T["intokn"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkPre(splitArr(a[0], mkStr(" ")), a[2], a[1])
	}
	T["ntok"] = func(x *Exec, st *State, a []*Term) *Term { return splitLen(a[0], mkStr(" ")) }
	T["tok"] = func(x *Exec, st *State, a []*Term) *Term { return mkSelect(splitArr(a[0], mkStr(" ")), a[1]) }
	T["toklist"] = func(x *Exec, st *State, a []*Term) *Term { return splitArr(a[0], mkStr(" ")) }
	T["split0"] = func(x *Exec, st *State, a []*Term) *Term { return mkSelect(splitArr(a[0], a[1]), a[2]) }
	T["splitn"] = func(x *Exec, st *State, a []*Term) *Term { return splitLen(a[0], a[1]) }
	T["sorttok"] = func(x *Exec, st *State, a []*Term) *Term { return sortTok(a[0]) }
	T["removetok"] = func(x *Exec, st *State, a []*Term) *Term {
		return removeTok(a[0], a[1])
	}
	T["filtarr"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkUF("filtarr", SStrArr, splitArr(a[0], mkStr(" ")), a[1], a[2])
	}
	T["filtlen"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkUF("filtlen", SInt, splitArr(a[0], mkStr(" ")), a[1], a[2])
	}
	T["jhas"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("jhas", SBool, a[0], a[1]) }
	T["jstr"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkIte(mkUF("jhas", SBool, a[0], a[1]), mkUF("junq", SStr, mkUF("jget", SStr, a[0], a[1])), TEmpty)
	}
	T["jint"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkIte(mkUF("jhas", SBool, a[0], a[1]), mkPure("atoi", mkUF("jget", SStr, a[0], a[1])), mkInt(0))
	}
	T["isjson"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("isjson", SBool, a[0]) }
	// JSON Web Tokens, inbound (opaque text) and outbound (signed here)
	T["jwthas"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkSelect(mkUF("jwtcpres", SStrSet, a[0]), a[1])
	}
	T["jwtval"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkSelect(mkUF("jwtcval", SArr(SStr, SRef), a[0]), a[1])
	}
	T["jwtstr"] = func(x *Exec, st *State, a []*Term) *Term {
		p := mkSelect(mkUF("jwtcpres", SStrSet, a[0]), a[1])
		v := mkSelect(mkUF("jwtcval", SArr(SStr, SRef), a[0]), a[1])
		return mkIte(mkAnd(p, isTag(v, "string")), mkUnbox("string", 0, SStr, v), TEmpty)
	}
	T["jwtisstr"] = func(x *Exec, st *State, a []*Term) *Term {
		p := mkSelect(mkUF("jwtcpres", SStrSet, a[0]), a[1])
		v := mkSelect(mkUF("jwtcval", SArr(SStr, SRef), a[0]), a[1])
		return mkAnd(p, isTag(v, "string"))
	}
	T["jwtisnum"] = func(x *Exec, st *State, a []*Term) *Term {
		p := mkSelect(mkUF("jwtcpres", SStrSet, a[0]), a[1])
		v := mkSelect(mkUF("jwtcval", SArr(SStr, SRef), a[0]), a[1])
		return mkAnd(p, mkOr(isTag(v, "float64"), isTag(v, "int64"), isTag(v, "int")))
	}
	T["jwtnum"] = func(x *Exec, st *State, a []*Term) *Term {
		p := mkSelect(mkUF("jwtcpres", SStrSet, a[0]), a[1])
		v := mkSelect(mkUF("jwtcval", SArr(SStr, SRef), a[0]), a[1])
		n := mkIte(isTag(v, "int64"), mkUnbox("int64", 0, SInt, v),
			mkIte(isTag(v, "int"), mkUnbox("int", 0, SInt, v),
				mkIte(isTag(v, "float64"), mkUF("f2i", SInt, mkUnbox("float64", 0, SFlt, v)), mkInt(0))))
		return mkIte(p, n, mkInt(0))
	}
	T["jwthdrstr"] = func(x *Exec, st *State, a []*Term) *Term {
		p := mkSelect(mkUF("jwthpres", SStrSet, a[0]), a[1])
		v := mkSelect(mkUF("jwthval", SArr(SStr, SRef), a[0]), a[1])
		return mkIte(mkAnd(p, isTag(v, "string")), mkUnbox("string", 0, SStr, v), TEmpty)
	}
	T["jwthdrhas"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkSelect(mkUF("jwthpres", SStrSet, a[0]), a[1])
	}
	T["jwtkey"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("jwtkey", SRef, a[0]) }
	T["jwtalg"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("jwtalg", SStr, a[0]) }
	T["jwtparsed"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkAnd(mkNot(mkUF("jwtmalformed", SBool, a[0])), mkUF("jwtalgok", SBool, a[0]))
	}
	T["jwtmalformed"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("jwtmalformed", SBool, a[0]) }
	T["jwtsigok"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("jwtsigok", SBool, a[0], a[1]) }
	T["jwttimeok"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkNot(mkOr(mkUF("jwtexpired", SBool, a[0]), mkUF("jwtiatbad", SBool, a[0]), mkUF("jwtnbfbad", SBool, a[0])))
	}
	T["issigner"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkAnd(mkNot(mkEq(a[0], TNil)), mkUF("impl:crypto.Signer", SBool, a[0]))
	}
	T["pubkey"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("pubkey", SRef, a[0]) }
	for n, u := range map[string]string{"pemok": "pemok", "pkixok": "pkixok", "pkcs1ok": "pkcs1ok", "fileok": "fileok"} {
		u := u
		T[n] = func(x *Exec, st *State, a []*Term) *Term { return mkUF(u, SBool, a[0]) }
	}
	for n, u := range map[string]string{"pemtype": "pemtype", "pembytes": "pembytes", "filedata": "filedata"} {
		u := u
		T[n] = func(x *Exec, st *State, a []*Term) *Term { return mkUF(u, SStr, a[0]) }
	}
	T["pkix"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("pkixkey", SRef, a[0]) }
	T["pkcs1"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("pkcs1key", SRef, a[0]) }
	T["isrsapub"] = func(x *Exec, st *State, a []*Term) *Term {
		return mkEq(mkTag(a[0]), mkInt(typeId("*crypto/rsa.PublicKey")))
	}
	T["rsapub"] = func(x *Exec, st *State, a []*Term) *Term { return mkUnbox("*crypto/rsa.PublicKey", 0, SRef, a[0]) }
	T["erruri"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("erruri", SStr, a[0], a[1]) }
	T["jwtsignok"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("jwtsignok", SBool, a[0], a[1]) }
	T["jwtalgknown"] = func(x *Exec, st *State, a []*Term) *Term { return algKnown(a[0]) }
	T["urlok"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("urlok", SBool, a[0]) }
	T["urlquery"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("urlquery", SStr, a[0]) }
	T["urlfragment"] = func(x *Exec, st *State, a []*Term) *Term { return mkUF("urlfragment", SStr, a[0]) }
	T["mapssjson"] = func(x *Exec, st *State, a []*Term) *Term { return nil }
	T["trailingcolor"] = func(x *Exec, st *State, a []*Term) *Term { return nil }
	T["str"] = func(x *Exec, st *State, a []*Term) *Term {
		if a[0].sort == SRef {
			return mkUnbox("string", 0, SStr, a[0])
		}
		return a[0]
	}
	T["isstr"] = func(x *Exec, st *State, a []*Term) *Term { return isTag(a[0], "string") }
	T["sanitize"] = func(x *Exec, st *State, a []*Term) *Term { return a[0] }
}

func isTag(v *Term, n string) *Term { return mkEq(mkTag(v), mkInt(typeId(n))) }

func algKnown(a *Term) *Term {
	if a.op == "str" {
		switch a.s {
		case "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "none":
			return TTrue
		}
		return TFalse
	}
	return mkUF("jwtalgknown", SBool, a)
}

func sortTok(s *Term) *Term {
	sp := mkStr(" ")
	a, n := splitArr(s, sp), splitLen(s, sp)
	return mkUF("joinarr", SStr, mkUF("sortarr", SStrArr, a, mkInt(0), n), mkInt(0), n, sp)
}

func removeTok(s, t *Term) *Term {
	sp := mkStr(" ")
	a, n := splitArr(s, sp), splitLen(s, sp)
	return mkUF("joinarr", SStr, mkUF("filtarr", SStrArr, a, n, t), mkInt(0), mkUF("filtlen", SInt, a, n, t), sp)
}

func (x *Exec) reqHdr(st *State) *Term {
	r := x.rootVars["r"]
	if r == nil {
		return TNil
	}
	tv := r.(*TV)
	el := derefType(tv.typ)
	return x.load(x.st0, mkFieldAddr(x, tv.v[0], el, "Header"), fieldType(el, "Header"))[0]
}

// secretHint lists substrings that identify credential-bearing names.
func lowerHas(s string, subs ...string) bool {
	s = strings.ToLower(s)
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}
