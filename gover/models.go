package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of functions outside the repository.

type model func(x *Exec, st *State, c *extCall) Val

type extCall struct {
	name string
	f    *ssa.Function
	sig  *types.Signature
	a    []Val
}

// t is the i-th argument as a scalar.
func (c *extCall) t(i int) *Term { return c.a[i][0] }

var externs = map[string]model{}

func (x *Exec) extern(name string, f *ssa.Function, sig *types.Signature, args []Val, st *State) Val {
	if f != nil && f.Origin() != nil {
		name = funcName(f.Origin())
	}
	c := &extCall{name, f, sig, args}
	if f != nil && sig.Recv() != nil && len(args) > 0 && len(args[0]) == 1 {
		if _, ok := sig.Recv().Type().(*types.Pointer); ok {
			x.nilCheck(st, args[0][0], "receiver of "+name)
		}
	}
	if m := externs[name]; m != nil {
		x.use("library " + name + ": assumed contract")
		return m(x, st, c)
	}
	if f != nil && f.Pkg != nil && !readOnlyPkgs[f.Pkg.Pkg.Path()] {
		x.libraryEffects(st, name, sig, args)
	}
	v := x.fresh(name, resultType(sig))
	if f != nil && makes(f, sig) && len(v) == 1 {
		x.use("library " + name + ": arbitrary result that is not nil, no effect on modelled state")
		markNonNil(v[0])
		return v
	}
	x.use("library " + name + ": arbitrary result, no effect on modelled state")
	return v
}

// libraryEffects accounts for what a library function without a contract may do to its arguments: a receiver
// is written to, a pointer to a number or string gets an arbitrary value, and anything else that gives
// access to memory of the code itself is out of reach.
func (x *Exec) libraryEffects(st *State, name string, sig *types.Signature, args []Val) {
	touch := func(v Val) {
		if len(v) > 0 && v[0].sort == SRef {
			x.noteWrite(st, "contents", baseOf(v[0]))
		}
	}
	if r := sig.Recv(); r != nil && len(args) > 0 {
		if _, ok := r.Type().Underlying().(*types.Pointer); ok && !libraryValue(r.Type()) && !strings.HasPrefix(name, "sync.Pool.") {
			touch(args[0])
		}
		args = args[1:]
		if strings.HasPrefix(name, "sync.Map.") || strings.HasPrefix(name, "sync/atomic.") {
			return // keeps its arguments, and does not change them
		}
	}
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		t := sig.Params().At(i).Type()
		if !mayWriteThrough(t) || libraryValue(t) {
			continue
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if e, ok := p.Elem().Underlying().(*types.Basic); ok {
				x.nilCheck(st, args[i][0], "argument of "+name)
				x.store(st, args[i][0], p.Elem(), x.fresh(name, e))
				continue
			}
		}
		if types.IsInterface(t) && len(args[i]) == 1 && plainBox(args[i][0]) {
			continue
		}
		x.unsupported(st, "library "+name+" has no contract and may write through its arguments")
		return
	}
}

// baseOf is the object that an address points into.
func baseOf(p *Term) *Term {
	switch {
	case p.op == "ite":
		return mkIte(p.args[0], baseOf(p.args[1]), baseOf(p.args[2]))
	case isAddr(p):
		return baseOf(p.args[0])
	}
	return p
}

// libraryValue are types whose values are not changed by the functions they are passed to.
func libraryValue(t types.Type) bool {
	switch typeName(t) {
	case "context.Context", "error", "*regexp.Regexp", "*time.Location", "reflect.Type", "*math/big.Int":
		return true
	}
	return false
}

// plainBox is true for interface values that hold a number, a string or nothing.
func plainBox(t *Term) bool {
	for _, l := range leavesOf(t) {
		switch {
		case l.t == TNil:
		case l.t.op == "uf" && strings.HasPrefix(l.t.s, "mk:") && !strings.HasPrefix(l.t.s, "mk:*") && len(l.t.args) > 0 && l.t.args[0].sort != SRef:
		default:
			return false
		}
	}
	return true
}

// makes tells whether a library function is a constructor or a method that returns its
// own kind of object: their only result is never nil.
func makes(f *ssa.Function, sig *types.Signature) bool {
	if sig.Results().Len() != 1 {
		return false
	}
	t := sig.Results().At(0).Type()
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	if r := sig.Recv(); r != nil {
		rt := r.Type()
		if q, ok := rt.(*types.Pointer); ok {
			rt = q.Elem()
		}
		return types.Identical(rt, p.Elem())
	}
	return strings.HasPrefix(f.Name(), "New") || strings.HasPrefix(f.Name(), "Must")
}

func one(t *Term) Val { return Val{t} }

// newError allocates an error value with the given text.
func (x *Exec) newError(text *Term) *Term {
	e := mkBox("*errors.errorString", []*Term{x.newRef("error")})
	x.fact(TTrue, mkEq(mkUF("errtext", SStr, e), text))
	return e
}

// errUnless is nil exactly when ok.
func (x *Exec) errUnless(ok *Term, what string) *Term {
	return mkIte(ok, TNil, mkBox("*errors.errorString", []*Term{x.newRef(what)}))
}

// ---- HTTP headers, form values ----

func (x *Exec) hdrGet(st *State, tn string, ref, k *Term) (*Term, *Term) {
	if tn == "net/url.Values" {
		return x.uvGet(st, ref, k)
	}
	if ref.op == "ite" {
		p1, v1 := x.hdrGet(st, tn, ref.args[1], k)
		p2, v2 := x.hdrGet(st, tn, ref.args[2], k)
		return mkIte(ref.args[0], p1, p2), mkIte(ref.args[0], v1, v2)
	}
	if ref == TNil {
		return TFalse, TEmpty
	}
	if k.op == "str" && canonHeader(k) != k {
		x.unsupported(st, "direct access to a header with a non-canonical key")
	}
	p := mkSelect(x.rd(st, "HDR:p", SStrSet, ref), canonHeader(k))
	v := mkSelect(x.rd(st, "HDR:v", SStrMap, ref), canonHeader(k))
	x.fact(TTrue, mkImp(mkNot(p), mkEq(v, TEmpty)))
	return p, v
}

func (x *Exec) headerSet(st *State, ref, k, v *Term) {
	k = canonHeader(k)
	x.wr(st, "HDR:p", SStrSet, ref, mkStore(x.rd(st, "HDR:p", SStrSet, ref), k, TTrue))
	x.wr(st, "HDR:v", SStrMap, ref, mkStore(x.rd(st, "HDR:v", SStrMap, ref), k, v))
}

func (x *Exec) headerDel(st *State, ref, k *Term) {
	k = canonHeader(k)
	x.wr(st, "HDR:p", SStrSet, ref, mkStore(x.rd(st, "HDR:p", SStrSet, ref), k, TFalse))
	x.wr(st, "HDR:v", SStrMap, ref, mkStore(x.rd(st, "HDR:v", SStrMap, ref), k, TEmpty))
}

// uvGet reads url.Values; the values of the request are ghost functions.
func (x *Exec) uvGet(st *State, ref, k *Term) (*Term, *Term) {
	switch {
	case ref.op == "ite":
		p1, v1 := x.uvGet(st, ref.args[1], k)
		p2, v2 := x.uvGet(st, ref.args[2], k)
		return mkIte(ref.args[0], p1, p2), mkIte(ref.args[0], v1, v2)
	case ref == TNil:
		return TFalse, TEmpty
	case ref.op == "uf" && (ref.s == "formvals" || ref.s == "postvals" || ref.s == "queryvals"):
		n := strings.TrimSuffix(ref.s, "vals")
		v := mkUF(map[string]string{"form": "form", "post": "postform", "query": "query"}[n], SStr, k)
		p := mkUF(n+"has", SBool, k)
		x.fact(TTrue, mkImp(mkNot(p), mkEq(v, TEmpty)))
		return p, v
	}
	p := mkSelect(x.rd(st, "UV:p", SStrSet, ref), k)
	v := mkSelect(x.rd(st, "UV:v", SStrMap, ref), k)
	return p, v
}

// valueList is the list of values under a key that is present: the first is the one Get returns,
// and a list that came in with the request (or with the headers) may have more.
func (x *Exec) valueList(st *State, tn string, ref, k, p, v *Term) Val {
	var n, more *Term
	if tn == "net/http.Header" {
		n, more = mkUF("hdrlen", SInt, v), mkUF("hdrmore", SStrArr, v)
	} else if n, more = uvMore(ref, k); more == nil {
		base := x.rd(st, "UV:v", SStrMap, ref)
		for base.op == "arr" || base.op == "store" {
			base = base.args[0]
		}
		if base.op == "karr" {
			return x.newSlice(st, types.Typ[types.String], []Val{{v}})
		}
		n, more = mkUF("uvlen", SInt, v), mkUF("uvmore", SStrArr, v)
	}
	x.fact(TTrue, mkImp(p, mkLe(mkInt(1), n)))
	return x.newStrSlice(st, mkStore(more, mkInt(0), v), n)
}

// uvMore is the number of values under a key of the request's parameters and the list itself; the values
// a handler put into a map of its own are one per key.
func uvMore(ref, k *Term) (*Term, *Term) {
	switch {
	case ref.op == "ite":
		n1, a1 := uvMore(ref.args[1], k)
		n2, a2 := uvMore(ref.args[2], k)
		if a1 == nil && a2 == nil {
			return mkInt(1), nil
		}
		if a1 == nil {
			a1 = a2
		}
		if a2 == nil {
			a2 = a1
		}
		return mkIte(ref.args[0], n1, n2), mkIte(ref.args[0], a1, a2)
	case ref.op == "uf" && (ref.s == "formvals" || ref.s == "postvals" || ref.s == "queryvals"):
		n := strings.TrimSuffix(ref.s, "vals")
		return mkUF(n+"len", SInt, k), mkUF(n+"list", SStrArr, k)
	}
	return mkInt(1), nil
}

func (x *Exec) uvSet(st *State, ref, k, v *Term) {
	x.wr(st, "UV:p", SStrSet, ref, mkStore(x.rd(st, "UV:p", SStrSet, ref), k, TTrue))
	x.wr(st, "UV:v", SStrMap, ref, mkStore(x.rd(st, "UV:v", SStrMap, ref), k, v))
}

func (x *Exec) uvAdd(st *State, ref, k, v *Term) {
	p, o := x.uvGet(st, ref, k)
	x.uvSet(st, ref, k, mkIte(p, mkUF("multi", SStr, o, v), v))
}

func (x *Exec) uvDel(st *State, ref, k *Term) {
	x.wr(st, "UV:p", SStrSet, ref, mkStore(x.rd(st, "UV:p", SStrSet, ref), k, TFalse))
	x.wr(st, "UV:v", SStrMap, ref, mkStore(x.rd(st, "UV:v", SStrMap, ref), k, TEmpty))
}

func (x *Exec) newUV(st *State) *Term {
	r := x.newRef("url.Values")
	x.wr(st, "UV:p", SStrSet, r, mkKArr(SStrSet, TFalse))
	x.wr(st, "UV:v", SStrMap, r, mkKArr(SStrMap, TEmpty))
	return r
}

func (x *Exec) uvEncode(st *State, ref *Term) *Term {
	switch {
	case ref.op == "ite":
		return mkIte(ref.args[0], x.uvEncode(st, ref.args[1]), x.uvEncode(st, ref.args[2]))
	case ref == TNil:
		return mkUF("uenc", SStr, mkKArr(SStrSet, TFalse), mkKArr(SStrMap, TEmpty))
	case ref.op == "uf" && strings.HasSuffix(ref.s, "vals"):
		return mkUF("uencreq", SStr, ref)
	}
	return mkUF("uenc", SStr, x.rd(st, "UV:p", SStrSet, ref), x.rd(st, "UV:v", SStrMap, ref))
}

// ---- response writer ----

func (x *Exec) rwCall(recv *Term, name string, sig *types.Signature, args []Val, st *State) Val {
	x.use("http.ResponseWriter: Header returns one header map, distinct from the request's; Write and WriteHeader are events")
	switch name {
	case "Header":
		h := mkUF("whdr", SRef, recv)
		markNonNil(h)
		return one(h)
	case "WriteHeader":
		x.mustNot(st, mkOr(mkLt(args[0][0], mkInt(100)), mkLt(mkInt(999), args[0][0])), "invalid WriteHeader code")
		e := x.event(st, "WriteHeader", nil)
		e.fields = map[string]any{"code": args[0][0], "header": &HdrV{x, e.st}}
		return nil
	case "Write":
		x.writeEvent(st, x.bytesOf(st, args[0]))
		return Val{mkPure("slen", x.bytesOf(st, args[0])), TNil}
	}
	return x.fresh("rw."+name, resultType(sig))
}

func (x *Exec) writeEvent(st *State, body *Term) {
	e := x.event(st, "Write", nil)
	e.fields = map[string]any{"body": body, "header": &HdrV{x, e.st}}
}

// writeTo writes text to an io.Writer value.
func (x *Exec) writeTo(st *State, w, text *Term, what string) {
	for _, l := range leavesOf(w) {
		s := st
		if l.g != TTrue {
			s = st.with(l.g)
		}
		if isMk(l.t) && (l.t.s == "mk:*strings.Builder" || l.t.s == "mk:*bytes.Buffer") {
			x.wr(st, "SB", SStr, l.t.args[0], mkIte(l.g, mkCat(x.rd(st, "SB", SStr, l.t.args[0]), text), x.rd(st, "SB", SStr, l.t.args[0])))
			continue
		}
		if hashKind(l.t) != "" {
			x.wr(st, "SB", SStr, l.t, mkIte(l.g, mkCat(x.rd(st, "SB", SStr, l.t), text), x.rd(st, "SB", SStr, l.t)))
			continue
		}
		if rw, ok := x.rootVars["w"].(*TV); ok && rw.v[0] == l.t {
			x.writeEvent(s, text)
			continue
		}
		e := x.event(s, "Print", nil)
		e.fields = map[string]any{"text": text}
	}
}

// ---- formatting ----

func (x *Exec) fmtAny(st *State, v *Term, verb byte) *Term {
	if v.op == "ite" {
		return mkIte(v.args[0], x.fmtAny(st, v.args[1], verb), x.fmtAny(st, v.args[2], verb))
	}
	if v == TNil {
		return mkStr("<nil>")
	}
	wrap := func(s *Term) *Term {
		switch verb {
		case 'q':
			return mkPure("quote", s)
		case 'x':
			return mkUF("hex", SStr, s)
		}
		return s
	}
	if isMk(v) {
		tn := v.s[3:]
		if t := typeTab[tn]; t != nil {
			if verb == 'v' || verb == 's' || verb == 'q' {
				for _, m := range []string{"Error", "String"} {
					if f := x.lookupMethod(t, nil, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
						if isRepoFunc(f) {
							s := st.clone()
							r, _ := x.callFn(f, []Val{unboxVal(t, v)}, nil, s)
							return wrap(r[0])
						}
						return wrap(mkUF("fmttext", SStr, v))
					}
				}
			}
			if _, ok := t.Underlying().(*types.Basic); ok && len(v.args) == 1 {
				switch v.args[0].sort {
				case SStr:
					if verb != 'd' {
						return wrap(v.args[0])
					}
				case SInt:
					if verb == 'd' || verb == 'v' {
						return mkPure("itoa", v.args[0])
					}
				case SBool:
					if verb == 't' || verb == 'v' {
						return mkIte(v.args[0], mkStr("true"), mkStr("false"))
					}
				}
			}
			if isByteSlice(t) && len(v.args) == 3 && verb != 'd' && verb != 'v' {
				return wrap(x.bytesOf(st, Val(v.args)))
			}
			if m, ok := t.Underlying().(*types.Map); ok && len(v.args) == 1 {
				if k, e := leavesOfType(m.Key()), leavesOfType(m.Elem()); len(k) == 1 && len(e) == 1 && v.args[0] != TNil {
					return mkUF("fmtmap:"+tn, SStr, x.mapPres(st, m, v.args[0]), x.mapVal(st, m, e[0], v.args[0]))
				}
			}
		} else if tn == "string" {
			return wrap(v.args[0])
		} else if tn == "*errors.errorString" {
			return wrap(mkUF("errtext", SStr, v))
		}
	}
	return wrap(mkUF("fmt:"+string(verb), SStr, v))
}

// noVerb: t is one of several literals without a formatting verb.
func noVerb(t *Term) bool {
	return t.op == "str" && !strings.Contains(t.s, "%") || t.op == "ite" && noVerb(t.args[1]) && noVerb(t.args[2])
}

// sprintf interprets a literal format.
func (x *Exec) sprintf(st *State, format *Term, vs []*Term, ok bool) *Term {
	if format.op != "str" || !ok {
		// text in front that has no verb
		if ps := catParts(format); ok && len(ps) > 1 && noVerb(ps[0]) {
			return mkCat(ps[0], x.sprintf(st, mkCat(ps[1:]...), vs, ok))
		}
		as := append([]*Term{format}, vs...)
		if !ok {
			return x.freshTerm("sprintf", SStr)
		}
		return mkUF(fmt.Sprintf("sprintf%d", len(vs)), SStr, as...)
	}
	f := format.s
	out := TEmpty
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = mkCat(out, mkStr(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			out = mkCat(out, mkStr("%!(NOVERB)"))
			break
		}
		if f[i] == '%' {
			out = mkCat(out, mkStr("%"))
			continue
		}
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		flags := f[i:j]
		if j >= len(f) {
			break
		}
		verb := f[j]
		i = j
		if n >= len(vs) {
			out = mkCat(out, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		v := vs[n]
		n++
		switch {
		case flags == "" || flags == "+" && verb == 'v':
			out = mkCat(out, x.fmtAny(st, v, verb))
		default:
			out = mkCat(out, mkUF("fmt:"+flags+string(verb), SStr, v))
		}
	}
	for ; n < len(vs); n++ {
		out = mkCat(out, mkUF("fmtextra", SStr, vs[n]))
	}
	return out
}

// ---- JSON ----

type jsonField struct {
	name      string
	omitempty bool
	asString  bool
	index     int
	typ       types.Type
	field     string
}

func structTags(t *types.Struct, key string) []jsonField {
	var out []jsonField
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(t.Tag(i)).Get(key)
		if tag == "-" {
			continue
		}
		ps := strings.Split(tag, ",")
		jf := jsonField{name: ps[0], index: i, typ: f.Type(), field: f.Name()}
		if jf.name == "" {
			jf.name = f.Name()
		}
		for _, o := range ps[1:] {
			switch o {
			case "omitempty":
				jf.omitempty = true
			case "string":
				jf.asString = true
			}
		}
		out = append(out, jf)
	}
	return out
}

func nonEmpty(t types.Type, v Val) *Term {
	switch t.Underlying().(type) {
	case *types.Slice:
		return mkNot(mkEq(v[2], mkInt(0)))
	case *types.Struct:
		return TTrue
	}
	if len(v) == 1 {
		return mkNot(mkEq(v[0], zeroOf(v[0].sort)))
	}
	return TTrue
}

// hasMethod finds a method of t or, for addressable values, of *t.
func (x *Exec) hasMethod(t types.Type, name string) *ssa.Function {
	f := x.lookupMethod(t, nil, name)
	if f != nil && isRepoFunc(f) {
		return f
	}
	return nil
}

// lookupMethod is the method of a concrete type, or nil.
func (x *Exec) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	sel := x.P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return x.P.prog.MethodValue(sel)
}

// jsonOf is the JSON text of a value.
func (x *Exec) jsonOf(st *State, t types.Type, v Val, guard *Term) *Term {
	if f := x.hasMethod(t, "MarshalJSON"); f != nil {
		if _, isp := t.Underlying().(*types.Pointer); !isp || v[0] != TNil {
			s := st.with(guard)
			r, o := x.callFn(f, []Val{v}, nil, s)
			return x.bytesOf(o, r[:3])
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch v[0].sort {
		case SStr:
			return mkUF("jqs", SStr, v[0])
		case SInt:
			return mkPure("itoa", v[0])
		case SBool:
			return mkIte(v[0], mkStr("true"), mkStr("false"))
		}
	case *types.Pointer:
		if v[0].op == "ite" {
			c := v[0].args[0]
			return mkIte(c, x.jsonOf(st, t, Val{v[0].args[1]}, mkAnd(guard, c)), x.jsonOf(st, t, Val{v[0].args[2]}, mkAnd(guard, mkNot(c))))
		}
		if v[0] == TNil {
			return mkStr("null")
		}
		nz := mkNot(mkEq(v[0], TNil))
		in := x.jsonOf(st, u.Elem(), x.load(st, v[0], u.Elem()), mkAnd(guard, nz))
		return mkIte(nz, in, mkStr("null"))
	case *types.Interface:
		if v[0].op == "ite" {
			c := v[0].args[0]
			return mkIte(c, x.jsonOf(st, t, Val{v[0].args[1]}, mkAnd(guard, c)), x.jsonOf(st, t, Val{v[0].args[2]}, mkAnd(guard, mkNot(c))))
		}
		if isMk(v[0]) {
			if d := typeTab[v[0].s[3:]]; d != nil {
				return x.jsonOf(st, d, unboxVal(d, v[0]), guard)
			}
		}
		return mkUF("jsonany", SStr, v[0])
	case *types.Struct:
		if opaqueStruct(t) {
			break
		}
		p, a := mkKArr(SStrSet, TFalse), mkKArr(SStrMap, TEmpty)
		for _, f := range structTags(u, "json") {
			lo, hi := fieldRange(u, f.index)
			fv := v[lo:hi]
			in := TTrue
			if f.omitempty {
				in = nonEmpty(f.typ, fv)
			}
			e := x.jsonOf(st, f.typ, fv, mkAnd(guard, in))
			if _, basic := f.typ.Underlying().(*types.Basic); basic && f.asString {
				e = mkUF("jqs", SStr, e)
			}
			k := mkStr(f.name)
			p = mkStore(p, k, in)
			a = mkStore(a, k, mkIte(in, e, TEmpty))
		}
		return mkUF("json", SStr, p, a)
	case *types.Map:
		if ks, ok := u.Key().Underlying().(*types.Basic); ok && ks.Info()&types.IsString != 0 {
			el := leavesOfType(u.Elem())
			if len(el) == 1 {
				if v[0] == TNil {
					return mkStr("null")
				}
				pres := x.mapPres(st, u, v[0])
				vals := x.mapVal(st, u, el[0], v[0])
				if keys, ok := explicitKeys(pres); ok && el[0].sort == SStr {
					p, a := mkKArr(SStrSet, TFalse), mkKArr(SStrMap, TEmpty)
					for _, k := range keys {
						in := mkSelect(pres, k)
						p = mkStore(p, k, in)
						a = mkStore(a, k, mkIte(in, mkUF("jqs", SStr, mkSelect(vals, k)), TEmpty))
					}
					return mkUF("json", SStr, p, a)
				}
				return mkIte(mkEq(v[0], TNil), mkStr("null"), mkUF("jsonmap:"+typeName(u), SStr, pres, vals))
			}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return mkUF("jqs", SStr, mkPure("b64", mkStr("std"), x.bytesOf(st, v)))
		}
		if el := leavesOfType(u.Elem()); len(el) == 1 {
			return mkUF("jsonlist:"+typeName(t), SStr, x.sliceArr(st, u.Elem(), el[0], v[0]), v[1], v[2])
		}
	}
	return mkUF("jsontext:"+typeName(t), SStr, v...)
}

// jsonInto decodes JSON text j into the object of type t at address p; ok tells
// whether the decoder accepted everything so far.
func (x *Exec) jsonInto(st *State, p *Term, t types.Type, j, ok *Term) *Term {
	if f := x.lookupMethod(types.NewPointer(t), nil, "UnmarshalJSON"); f != nil && isRepoFunc(f) {
		s := st.clone()
		b := x.newBytes(s, j)
		base := st.pc
		s.pc = mkAnd(base, ok)
		r, o := x.callFn(f, []Val{{p}, b}, nil, s)
		good := mkEq(r[0], TNil)
		for k, a := range o.heap {
			st.heap[k] = mkIte(ok, a, heapArr(st.heap, k, a.sort.v))
		}
		return mkAnd(ok, good)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var v, fits *Term
		switch leavesOfType(t)[0].sort {
		case SStr:
			v, fits = mkUF("junq", SStr, j), mkUF("jisstr", SBool, j)
		case SInt:
			v, fits = mkPure("atoi", j), mkPure("atoiok", j)
		case SBool:
			v, fits = mkEq(j, mkStr("true")), mkOr(mkEq(j, mkStr("true")), mkEq(j, mkStr("false")))
		default:
			return TFalse
		}
		old := x.load(st, p, t)[0]
		x.store(st, p, t, Val{mkIte(mkAnd(ok, fits), v, old)})
		return mkAnd(ok, fits)
	case *types.Pointer:
		null := mkEq(j, mkStr("null"))
		r := x.alloc(st, u.Elem(), "json")
		old := x.load(st, p, t)[0]
		if old != TNil {
			x.unsupported(st, "json.Unmarshal into a non-nil pointer field")
		}
		good := x.jsonInto(st, r, u.Elem(), j, mkAnd(ok, mkNot(null)))
		x.store(st, p, t, Val{mkIte(null, TNil, mkIte(ok, r, old))})
		return mkOr(mkAnd(ok, null), good)
	case *types.Struct:
		if opaqueStruct(t) {
			break
		}
		isObj := mkUF("isjsonobj", SBool, j)
		all := mkAnd(ok, isObj)
		for _, f := range structTags(u, "json") {
			k := mkStr(f.name)
			has := mkUF("jhas", SBool, j, k)
			if has == TFalse {
				continue
			}
			g, e, quoted := mkAnd(all, has), mkUF("jget", SStr, j, k), TTrue
			if _, basic := f.typ.Underlying().(*types.Basic); basic && f.asString {
				quoted, e = mkUF("jisstr", SBool, e), mkUF("junq", SStr, e)
			}
			in := x.jsonInto(st, mkFieldAddr(x, p, t, f.field), f.typ, e, mkAnd(g, quoted))
			all = mkAnd(all, mkOr(mkNot(has), in))
		}
		return all
	}
	x.unsupported(st, "json.Unmarshal into "+typeName(t))
	return TFalse
}

// ---- JSON Web Tokens ----

const jwtPkg = "github.com/golang-jwt/jwt"

func (x *Exec) extType(pkg, name string) types.Type {
	for _, p := range x.P.list {
		for _, imp := range p.Types.Imports() {
			if imp.Path() == pkg {
				if o := imp.Scope().Lookup(name); o != nil {
					return o.Type()
				}
			}
		}
	}
	return nil
}

func (x *Exec) anyMap() *types.Map {
	return types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil).Complete())
}

// jwtToken builds the parsed token object.
func (x *Exec) jwtToken(st *State, raw *Term) *Term {
	tt := x.extType(jwtPkg, "Token")
	mc := x.extType(jwtPkg, "MapClaims")
	if tt == nil || mc == nil {
		x.unsupported(st, "jwt types not found")
		return x.freshTerm("token", SRef)
	}
	am := x.anyMap()
	tok := x.alloc(st, tt, "jwt.Token")
	set := func(f string, v Val) { x.store(st, mkFieldAddr(x, tok, tt, f), fieldType(tt, f), v) }
	hdr, cl := x.newRef("jwt.Header"), x.newRef("jwt.Claims")
	sv := SArr(SStr, SRef)
	hm := fieldType(tt, "Header").Underlying().(*types.Map)
	x.wr(st, "MP:"+mapName(hm), SStrSet, hdr, mkUF("jwthpres", SStrSet, raw))
	x.wr(st, "MV:"+mapName(hm)+":", sv, hdr, mkUF("jwthval", sv, raw))
	cm := mc.Underlying().(*types.Map)
	_ = am
	x.wr(st, "MP:"+mapName(cm), SStrSet, cl, mkUF("jwtcpres", SStrSet, raw))
	x.wr(st, "MV:"+mapName(cm)+":", sv, cl, mkUF("jwtcval", sv, raw))
	alg := mkUF("jwtalg", SStr, raw)
	set("Raw", Val{raw})
	set("Method", Val{mkUF("jwtmethod", SRef, alg)})
	set("Header", Val{hdr})
	set("Claims", Val{boxVal(mc, Val{cl})})
	set("Signature", Val{x.freshTerm("jwtsig", SStr)})
	return tok
}

func (x *Exec) jwtError(st *State, inner, bits *Term) (*Term, *Term) {
	vt := x.extType(jwtPkg, "ValidationError")
	e := x.alloc(st, vt, "jwt.ValidationError")
	x.store(st, mkFieldAddr(x, e, vt, "Inner"), fieldType(vt, "Inner"), Val{inner})
	x.store(st, mkFieldAddr(x, e, vt, "Errors"), fieldType(vt, "Errors"), Val{bits})
	pt := types.NewPointer(vt)
	return boxVal(pt, Val{e}), e
}

// jwtParse models jwt.Parse of golang-jwt v3.
func (x *Exec) jwtParse(st *State, raw, kf *Term, kfSig *types.Signature, kfType types.Type, skipClaims *Term) Val {
	x.use("golang-jwt Parse: the key function is called once for a well-formed token with a known algorithm; signature, exp, iat and nbf are then checked; claims are the decoded payload")
	vt := x.extType(jwtPkg, "ValidationError")
	if vt == nil {
		x.unsupported(st, "jwt types not found")
		return x.fresh("jwt.Parse", types.NewTuple())
	}
	tok := x.jwtToken(st, raw)
	mal := mkUF("jwtmalformed", SBool, raw)
	algok := mkUF("jwtalgok", SBool, raw)
	e1, _ := x.jwtError(st, TNil, mkInt(1))
	e2, _ := x.jwtError(st, TNil, mkInt(2))
	base := st.pc
	ks := st.with(mkAnd(mkNot(mal), algok))
	e := x.event(ks, "ParseToken", nil)
	e.fields = map[string]any{"token": raw}
	var key, kerr *Term
	if kf == TNil {
		key, kerr = TNil, e2
	} else {
		r, o := x.callRef(kf, []Val{{tok}}, kfSig, kfType, ks)
		key, kerr = r[0], r[1]
		o2, _ := mergeStates([]inState{{o, nil}, {&State{mkAnd(base, mkOr(mal, mkNot(algok))), st.heap}, nil}})
		st.heap = o2.heap
		if o.pc != ks.pc {
			st.pc = o2.pc
		}
	}
	// error of the key function
	vp := types.NewPointer(vt)
	isVE := isTag(kerr, typeName(vp))
	inner2, _ := x.jwtError(st, kerr, mkInt(2))
	ekey := mkIte(isVE, kerr, inner2)
	// validation
	sigok := mkUF("jwtsigok", SBool, raw, key)
	bad := func(n string) *Term { return mkAnd(mkNot(skipClaims), mkUF(n, SBool, raw)) }
	exp, iat, nbf := bad("jwtexpired"), bad("jwtiatbad"), bad("jwtnbfbad")
	bit := func(c *Term, n int64) *Term { return mkIte(c, mkInt(n), mkInt(0)) }
	bits := mkUF("bits", SInt, mkNot(sigok), exp, iat, nbf)
	_ = bit
	inner := x.freshTerm("jwtinner", SRef)
	ever, _ := x.jwtError(st, inner, bits)
	valid := mkAnd(sigok, mkNot(exp), mkNot(iat), mkNot(nbf))
	kok := mkEq(kerr, TNil)
	tt := x.extType(jwtPkg, "Token")
	x.store(st, mkFieldAddr(x, tok, tt, "Valid"), types.Typ[types.Bool], Val{mkAnd(mkNot(mal), algok, kok, valid)})
	tokres := mkIte(mal, mkIte(mkUF("jwtnotok", SBool, raw), TNil, tok), tok)
	err := mkIte(mal, e1, mkIte(mkNot(algok), e2, mkIte(mkNot(kok), ekey, mkIte(valid, TNil, ever))))
	return Val{tokres, err}
}

// jwtSign models Token.SignedString.
func (x *Exec) jwtSign(st *State, tok, key *Term) Val {
	if tok.op == "ite" {
		a, b := x.jwtSign(st, tok.args[1], key), x.jwtSign(st, tok.args[2], key)
		return iteVal(tok.args[0], a, b)
	}
	x.use("golang-jwt SignedString: an injective encoding of header, claims, algorithm and key, or an error")
	tt := x.extType(jwtPkg, "Token")
	mc := x.extType(jwtPkg, "MapClaims")
	hm := fieldType(tt, "Header").Underlying().(*types.Map)
	cm := mc.Underlying().(*types.Map)
	get := func(f string) *Term { return x.load(st, mkFieldAddr(x, tok, tt, f), fieldType(tt, f))[0] }
	method, hdr, cl := get("Method"), get("Header"), get("Claims")
	clm := unboxVal(mc, cl)[0]
	el := leavesOfType(cm.Elem())[0]
	hp, hv := x.mapPres(st, hm, hdr), x.mapVal(st, hm, el, hdr)
	cp, cv := x.mapPres(st, cm, clm), x.mapVal(st, cm, el, clm)
	alg := mkUF("methodalg", SStr, method)
	ok := mkUF("jwtsignok", SBool, alg, key)
	s := mkUF("jwtsigned", SStr, alg, key, hp, hv, cp, cv)
	return Val{mkIte(ok, s, TEmpty), x.errUnless(ok, "jwt.Sign")}
}

// algOfMethod extracts the algorithm of a signing method value.
func init() {
	rules["methodalg"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "uf" && a[0].s == "jwtmethod" {
			return a[0].args[0]
		}
		return nil
	}
	liftIte["methodalg"] = true
	unw := func(name string, i int) {
		rules[name] = func(s *Sort, a []*Term) *Term {
			if a[0].op == "uf" && a[0].s == "jwtsigned" {
				return a[0].args[i]
			}
			return nil
		}
		liftIte[name] = true
	}
	unw("jwtalg", 0)
	unw("jwtkey", 1)
	unw("jwthpres", 2)
	unw("jwthval", 3)
	unw("jwtcpres", 4)
	unw("jwtcval", 5)
	for i, name := range []string{"basicok", "basicuser", "basicpass"} {
		i := i
		rules[name] = func(s *Sort, a []*Term) *Term {
			u, p, ok := basicParts(a[0])
			if !ok {
				return nil
			}
			return []*Term{TTrue, u, p}[i]
		}
	}
	rules["junq"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "uf" && a[0].s == "jqs" {
			return a[0].args[0]
		}
		return nil
	}
	rules["jisstr"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "uf" && a[0].s == "jqs" {
			return TTrue
		}
		if a[0].op == "uf" && (a[0].s == "itoa" || a[0].s == "json") {
			return TFalse
		}
		if a[0].op == "str" {
			return mkBool(strings.HasPrefix(a[0].s, `"`))
		}
		return nil
	}
	isj := func(s *Sort, a []*Term) *Term {
		if a[0].op == "uf" && (a[0].s == "json" || strings.HasPrefix(a[0].s, "jsonmap:")) {
			return TTrue
		}
		if a[0].op == "uf" && (a[0].s == "jqs" || a[0].s == "itoa") {
			return TFalse
		}
		return nil
	}
	rules["isjsonobj"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "str" {
			var m map[string]any
			return mkBool(json.Unmarshal([]byte(a[0].s), &m) == nil && m != nil)
		}
		return isj(s, a)
	}
	rules["isjson"] = func(s *Sort, a []*Term) *Term {
		if r := isj(s, a); r == TTrue {
			return r
		}
		return nil
	}
	for _, n := range []string{"junq", "jisstr", "isjsonobj", "isjson"} {
		liftIte[n] = true
	}
	// bits of a validation error: signature 4, expired 16, issued-at 32, not-before 128
	rules["band"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "int" && a[1].op == "int" {
			return mkInt(a[0].n & a[1].n)
		}
		if a[1].op != "int" && a[0].op == "int" {
			a = []*Term{a[1], a[0]}
		}
		if a[0].op == "uf" && a[0].s == "bits" && a[1].op == "int" {
			r := mkInt(0)
			for i, b := range []int64{4, 16, 32, 128} {
				if a[1].n&b != 0 {
					r = mkAdd(r, mkIte(a[0].args[i], mkInt(b), mkInt(0)))
				}
			}
			return r
		}
		return nil
	}
	liftIte["band"] = true
	rules["nanos"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "uf" && a[0].s == "timeunix" {
			return mkMul(mkInt(1000000000), a[0].args[0])
		}
		if a[0].op == "uf" && a[0].s == "timeadd" {
			return mkAdd(mkUF("nanos", SInt, a[0].args[0]), a[0].args[1])
		}
		return nil
	}
	liftIte["nanos"] = true
	rules["int/"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "int" && a[1].op == "int" && a[1].n != 0 {
			return mkInt(a[0].n / a[1].n)
		}
		return nil
	}
	rules["int%"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "int" && a[1].op == "int" && a[1].n != 0 {
			return mkInt(a[0].n % a[1].n)
		}
		return nil
	}
	liftIte["int/"], liftIte["int%"] = true, true
	rules["rows"] = func(s *Sort, a []*Term) *Term {
		// rows(order, k+1, vals) = rows(order, k, vals) ++ row(order[k], vals)
		if a[1].op == "int" && a[1].n == 0 {
			return TEmpty
		}
		var prev *Term
		if a[1].op == "int" && a[1].n > 0 && a[1].n <= 16 {
			prev = mkInt(a[1].n - 1)
		} else if c, _, _ := linParts(a[1]); c > 0 && a[1].op != "int" {
			prev = mkAdd(a[1], mkInt(-1))
		}
		if prev == nil {
			return nil
		}
		k := mkSelect(a[0], prev)
		row := mkCat(a[3], mkPure("htmlesc", k), a[4], mkPure("htmlesc", mkSelect(a[2], k)), a[5])
		return mkCat(mkUF("rows", SStr, a[0], prev, a[2], a[3], a[4], a[5]), row)
	}
}

func divExact(t *Term, d int64) *Term {
	c, ts, co := linParts(t)
	if c%d != 0 {
		return nil
	}
	nc := make([]int64, len(co))
	for i, k := range co {
		if k%d != 0 {
			return nil
		}
		nc[i] = k / d
	}
	return mkLin(c/d, ts, nc)
}

// ---- the table ----

func strArg(x *Exec, st *State, v Val) *Term {
	if len(v) == 3 {
		return x.bytesOf(st, v)
	}
	return v[0]
}

func (x *Exec) splitVal(st *State, s, sep *Term) Val {
	n := splitLen(s, sep)
	if n.op != "int" {
		x.fact(TTrue, mkLe(mkInt(1), n))
	}
	return x.newStrSlice(st, splitArr(s, sep), n)
}

func (x *Exec) joinVal(st *State, v Val, sep *Term) *Term {
	if v[2] == mkInt(0) {
		return TEmpty
	}
	return mkUF("joinarr", SStr, x.strSlice(st, v), v[1], v[2], sep)
}

func fieldOf(x *Exec, st *State, p *Term, t types.Type, f string) *Term {
	return x.load(st, mkFieldAddr(x, p, t, f), fieldType(t, f))[0]
}

func init() {
	E := externs
	pure := func(n, f string, idx ...int) {
		E[n] = func(x *Exec, st *State, c *extCall) Val {
			var as []*Term
			for i := range c.a {
				as = append(as, strArg(x, st, c.a[i]))
			}
			if idx != nil {
				var o []*Term
				for _, i := range idx {
					o = append(o, as[i])
				}
				as = o
			}
			return one(mkPure(f, as...))
		}
	}
	uf := func(n, f string, s *Sort) {
		E[n] = func(x *Exec, st *State, c *extCall) Val {
			var as []*Term
			for i := range c.a {
				as = append(as, strArg(x, st, c.a[i]))
			}
			return one(mkUF(f, s, as...))
		}
	}
	nop := func(n string) {
		E[n] = func(x *Exec, st *State, c *extCall) Val { return x.zeroResult(c.sig) }
	}
	// strings
	pure("strings.ToLower", "lower")
	pure("strings.ToUpper", "upper")
	pure("strings.TrimSpace", "trimspace")
	pure("strings.HasPrefix", "hasprefix")
	pure("strings.HasSuffix", "hassuffix")
	pure("strings.Contains", "contains")
	pure("strings.EqualFold", "equalfold")
	pure("bytes.HasPrefix", "hasprefix")
	pure("bytes.Contains", "contains")
	pure("strconv.Quote", "quote")
	pure("strconv.Itoa", "itoa")
	pure("html.EscapeString", "htmlesc")
	E["html/template.HTMLEscapeString"] = func(x *Exec, st *State, c *extCall) Val { return one(mkUF("tmplesc", SStr, c.t(0))) }
	pure("net/url.QueryEscape", "qescape")
	uf("net/url.PathEscape", "pescape", SStr)
	uf("strings.Title", "title", SStr)
	uf("strings.Replace", "replace", SStr)
	uf("strings.ReplaceAll", "replaceall", SStr)
	uf("strings.Repeat", "repeat", SStr)
	uf("strings.ContainsAny", "containsany", SBool)
	uf("strings.ContainsRune", "containsrune", SBool)
	uf("strings.Count", "countsub", SInt)
	uf("strings.Trim", "trimset", SStr)
	uf("strings.TrimLeft", "trimleft", SStr)
	uf("net/http.StatusText", "statustext", SStr)
	uf("net/http.CanonicalHeaderKey", "canonheader", SStr)
	E["strings.Compare"] = func(x *Exec, st *State, c *extCall) Val {
		lt := mkUF("strlt", SBool, c.t(0), c.t(1))
		return one(mkIte(mkEq(c.t(0), c.t(1)), mkInt(0), mkIte(lt, mkInt(-1), mkInt(1))))
	}
	E["strings.TrimRight"] = func(x *Exec, st *State, c *extCall) Val {
		s := c.t(0)
		if s.op == "uf" && s.s == "b64" && c.t(1) == mkStr("=") {
			return one(mkPure("b64", rawKind(s.args[0]), s.args[1]))
		}
		return one(mkUF("trimright", SStr, s, c.t(1)))
	}
	E["strings.TrimPrefix"] = func(x *Exec, st *State, c *extCall) Val {
		s, p := c.t(0), c.t(1)
		return one(mkIte(mkPure("hasprefix", s, p), mkPure("substr", s, mkPure("slen", p), mkPure("slen", s)), s))
	}
	E["strings.TrimSuffix"] = func(x *Exec, st *State, c *extCall) Val {
		s, p := c.t(0), c.t(1)
		return one(mkIte(mkPure("hassuffix", s, p), mkPure("substr", s, mkInt(0), mkSub(mkPure("slen", s), mkPure("slen", p))), s))
	}
	E["strings.CutPrefix"] = func(x *Exec, st *State, c *extCall) Val {
		s, p := c.t(0), c.t(1)
		h := mkPure("hasprefix", s, p)
		return Val{mkIte(h, mkPure("substr", s, mkPure("slen", p), mkPure("slen", s)), s), h}
	}
	idx := func(n, sub string) {
		E[n] = func(x *Exec, st *State, c *extCall) Val {
			s, sep := c.t(0), c.t(1)
			if sep.op == "int" && 0 < sep.n && sep.n < 128 {
				sep = mkStr(string(rune(sep.n)))
			}
			r := mkUF(sub, SInt, s, sep)
			if sep.sort != SStr || sub == "indexany" && slenLit(sep) != 1 {
				x.fact(TTrue, mkAnd(mkLe(mkInt(-1), r), mkLt(r, mkAdd(mkPure("slen", s), mkInt(1)))))
				return one(r)
			}
			if sub == "lastindex" {
				x.fact(TTrue, mkAnd(mkLe(mkInt(-1), r), mkLe(r, mkPure("slen", s))))
				x.fact(TTrue, mkImp(mkLe(mkInt(0), r), mkLe(mkAdd(r, mkPure("slen", sep)), mkPure("slen", s))))
				x.fact(TTrue, mkEq(mkPure("contains", s, sep), mkLe(mkInt(0), r)))
				return one(r)
			}
			if slenLit(sep) <= 0 {
				r = mkUF("index", SInt, s, sep)
				x.fact(TTrue, mkAnd(mkLe(mkInt(-1), r), mkLe(mkAdd(r, mkPure("slen", sep)), mkPure("slen", s))))
				x.fact(TTrue, mkEq(mkPure("contains", s, sep), mkLe(mkInt(0), r)))
				return one(r)
			}
			// the text before the first separator ends where the separator is
			before, _, found := cut(s, sep)
			n := mkPure("slen", before)
			x.fact(TTrue, mkLe(n, mkPure("slen", s)))
			x.fact(TTrue, mkImp(found, mkLe(mkAdd(n, mkPure("slen", sep)), mkPure("slen", s))))
			return one(mkIte(found, n, mkInt(-1)))
		}
	}
	idx("strings.Index", "index")
	idx("strings.LastIndex", "lastindex")
	idx("strings.IndexByte", "index")
	idx("strings.LastIndexByte", "lastindex")
	idx("strings.IndexRune", "index")
	idx("strings.IndexAny", "indexany")
	E["strings.Cut"] = func(x *Exec, st *State, c *extCall) Val {
		before, after, found := cut(c.t(0), c.t(1))
		return Val{before, after, found}
	}
	E["strings.Split"] = func(x *Exec, st *State, c *extCall) Val { return x.splitVal(st, c.t(0), c.t(1)) }
	E["strings.SplitN"] = func(x *Exec, st *State, c *extCall) Val {
		if c.t(2).op == "int" && c.t(2).n < 0 {
			return x.splitVal(st, c.t(0), c.t(1))
		}
		if c.t(2).op == "int" && c.t(2).n == 2 && slenLit(c.t(1)) > 0 {
			before, after, found := cut(c.t(0), c.t(1))
			arr := mkStore(mkStore(mkKArr(SStrArr, TEmpty), mkInt(0), before), mkInt(1), after)
			return x.newStrSlice(st, arr, mkIte(found, mkInt(2), mkInt(1)))
		}
		n := mkUF("splitnlen", SInt, c.t(0), c.t(1), c.t(2))
		x.fact(TTrue, mkAnd(mkLe(mkInt(1), n), mkLe(n, c.t(2))))
		return x.newStrSlice(st, mkUF("splitnarr", SStrArr, c.t(0), c.t(1), c.t(2)), n)
	}
	E["strings.Fields"] = func(x *Exec, st *State, c *extCall) Val {
		n := mkUF("fieldslen", SInt, c.t(0))
		x.fact(TTrue, mkLe(mkInt(0), n))
		return x.newStrSlice(st, mkUF("fieldsarr", SStrArr, c.t(0)), n)
	}
	E["strings.Join"] = func(x *Exec, st *State, c *extCall) Val { return one(x.joinVal(st, c.a[0], c.t(1))) }
	E["sort.Strings"] = func(x *Exec, st *State, c *extCall) Val {
		v := c.a[0]
		x.wr(st, "E:string:", SStrArr, v[0], mkUF("sortarr", SStrArr, x.strSlice(st, v), v[1], v[2]))
		return nil
	}
	E["slices.Sort"] = E["sort.Strings"]
	E["sort.StringSlice.Sort"] = E["sort.Strings"]
	sortIface := func(x *Exec, st *State, c *extCall) Val {
		if v := c.t(0); isMk(v) && v.s[3:] == "sort.StringSlice" {
			return E["sort.Strings"](x, st, &extCall{c.name, c.f, c.sig, []Val{unboxVal(typeTab[v.s[3:]], v)}})
		}
		x.unsupported(st, c.name)
		return nil
	}
	E["sort.Sort"] = sortIface
	E["sort.Stable"] = sortIface
	boolRes := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.Bool])), false)
	sortBy := func(x *Exec, st *State, c *extCall) Val {
		v := c.t(0)
		if c.name == "slices.SortFunc" || c.name == "slices.SortStableFunc" {
			if cl := x.closures[c.a[1][0]]; len(c.a[0]) == 3 && cl != nil && funcName(cl.fn) == "strings.Compare" {
				return E["sort.Strings"](x, st, &extCall{c.name, c.f, c.sig, c.a[:1]})
			}
		} else if isMk(v) && v.s[3:] == "[]string" {
			// the order given is that of the strings: less(i, j) <==> s[i] < s[j], for any i and j
			sl := unboxVal(typeTab[v.s[3:]], v)
			i, j := x.freshTerm("sorti", SInt), x.freshTerm("sortj", SInt)
			s := st.clone()
			for _, k := range []*Term{i, j} {
				s.pc = mkAnd(s.pc, mkLe(mkInt(0), k), mkLt(k, sl[2]))
			}
			pc := s.pc
			r, o := x.callRef(c.a[1][0], []Val{{i}, {j}}, boolRes, boolRes, s)
			a := x.strSlice(st, sl)
			want := mkUF("strlt", SBool, mkSelect(a, mkAdd(sl[1], i)), mkSelect(a, mkAdd(sl[1], j)))
			if len(r) == 1 && o.pc != TFalse && x.prove(append(append([]*Term{}, x.facts...), pc, mkNot(mkEq(r[0], want)))) {
				return E["sort.Strings"](x, st, &extCall{c.name, c.f, c.sig, []Val{sl}})
			}
		}
		x.unsupported(st, c.name)
		return nil
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc"} {
		E[n] = sortBy
	}
	// elemIs finds w such that the predicate c holds of a string exactly when it is w
	elemIs := func(x *Exec, st *State, c *Term) (w *Term, neg bool) {
		e := x.freshTerm("elem", SStr)
		no, nw, ne := len(x.obls), len(x.writes), len(x.events)
		r, o := x.callRef(c, []Val{{e}}, boolRes, boolRes, st.clone())
		if len(r) != 1 || len(x.obls) != no || len(x.writes) != nw || len(x.events) != ne || o.pc != st.pc {
			return nil, false
		}
		t := r[0]
		if t.op == "not" {
			t, neg = t.args[0], true
		}
		if t.op == "=" {
			for k := range t.args {
				if t.args[k] == e && !occurs(e, t.args[1-k]) {
					return t.args[1-k], neg
				}
			}
		}
		return nil, false
	}
	ofStrings := func(c *extCall) bool {
		sl, ok := c.sig.Params().At(0).Type().Underlying().(*types.Slice)
		return ok && leavesOfType(sl.Elem())[0].sort == SStr
	}
	E["slices.ContainsFunc"] = func(x *Exec, st *State, c *extCall) Val {
		if v := c.a[0]; ofStrings(c) && len(v) == 3 && v[1] == mkInt(0) {
			if w, neg := elemIs(x, st, c.a[1][0]); w != nil && !neg {
				return one(mkPre(x.strSlice(st, v), v[2], w))
			}
		}
		x.unsupported(st, c.name)
		return nil
	}
	E["slices.DeleteFunc"] = func(x *Exec, st *State, c *extCall) Val {
		v := c.a[0]
		if ofStrings(c) && len(v) == 3 && v[1] == mkInt(0) {
			if w, neg := elemIs(x, st, c.a[1][0]); w != nil && !neg {
				a := x.strSlice(st, v)
				x.wr(st, "E:string:", SStrArr, v[0], mkUF("filtarr", SStrArr, a, v[2], w))
				return Val{v[0], mkInt(0), mkUF("filtlen", SInt, a, v[2], w)}
			}
		}
		x.unsupported(st, c.name)
		return nil
	}
	// two lists of words, each cut at the same separator, are the same exactly when
	// they read the same when joined with it (theory/Words.lean)
	words := func(a, n *Term) *Term {
		for a.op == "uf" && a.s == "sortarr" && a.args[1] == mkInt(0) && a.args[2] == n {
			a = a.args[0]
		}
		if a.op == "uf" && a.s == "splitarr" && n == mkUF("splitlen", SInt, a.args...) {
			return a.args[1]
		}
		return nil
	}
	E["slices.Equal"] = func(x *Exec, st *State, c *extCall) Val {
		if ofStrings(c) && len(c.a[0]) == 3 && len(c.a[1]) == 3 && c.a[0][1] == mkInt(0) && c.a[1][1] == mkInt(0) {
			a, b := x.strSlice(st, c.a[0]), x.strSlice(st, c.a[1])
			if s := words(a, c.a[0][2]); s != nil && s == words(b, c.a[1][2]) && s.op == "str" && s.s != "" {
				return one(mkEq(x.joinVal(st, c.a[0], s), x.joinVal(st, c.a[1], s)))
			}
		}
		x.unsupported(st, c.name)
		return nil
	}
	E["slices.Contains"] = func(x *Exec, st *State, c *extCall) Val {
		if len(c.a[0]) != 3 || c.t(1).sort != SStr {
			return x.fresh("slices.Contains", resultType(c.sig))
		}
		arr := x.strSlice(st, c.a[0])
		if c.a[0][1] != mkInt(0) {
			arr = mkUF("shift", arr.sort, arr, c.a[0][1])
		}
		return one(mkPre(arr, c.a[0][2], c.t(1)))
	}
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		E[b+".WriteString"] = func(x *Exec, st *State, c *extCall) Val {
			x.wr(st, "SB", SStr, c.t(0), mkCat(x.rd(st, "SB", SStr, c.t(0)), c.t(1)))
			return Val{mkPure("slen", c.t(1)), TNil}
		}
		E[b+".Write"] = func(x *Exec, st *State, c *extCall) Val {
			s := x.bytesOf(st, c.a[1])
			x.wr(st, "SB", SStr, c.t(0), mkCat(x.rd(st, "SB", SStr, c.t(0)), s))
			return Val{mkPure("slen", s), TNil}
		}
		E[b+".WriteByte"] = func(x *Exec, st *State, c *extCall) Val {
			ch := mkUF("chr", SStr, c.t(1))
			if c.t(1).op == "int" {
				ch = mkStr(string([]byte{byte(c.t(1).n)}))
			}
			x.wr(st, "SB", SStr, c.t(0), mkCat(x.rd(st, "SB", SStr, c.t(0)), ch))
			return Val{TNil}
		}
		E[b+".String"] = func(x *Exec, st *State, c *extCall) Val { return one(x.rd(st, "SB", SStr, c.t(0))) }
		E[b+".Len"] = func(x *Exec, st *State, c *extCall) Val { return one(mkPure("slen", x.rd(st, "SB", SStr, c.t(0)))) }
		E[b+".Bytes"] = func(x *Exec, st *State, c *extCall) Val { return x.newBytes(st, x.rd(st, "SB", SStr, c.t(0))) }
		nop(b + ".Grow")
	}
	// strconv
	atoi := func(x *Exec, st *State, s *Term) Val {
		ok := mkPure("atoiok", s)
		return Val{mkIte(ok, mkPure("atoi", s), mkUF("atoibad", SInt, s)), x.errUnless(ok, "strconv")}
	}
	E["strconv.Atoi"] = func(x *Exec, st *State, c *extCall) Val { return atoi(x, st, c.t(0)) }
	E["strconv.ParseInt"] = func(x *Exec, st *State, c *extCall) Val {
		if c.t(1) == mkInt(10) && (c.t(2) == mkInt(64) || c.t(2) == mkInt(0)) {
			return atoi(x, st, c.t(0))
		}
		return x.fresh("ParseInt", resultType(c.sig))
	}
	E["strconv.FormatInt"] = func(x *Exec, st *State, c *extCall) Val {
		if c.t(1) == mkInt(10) {
			return one(mkPure("itoa", c.t(0)))
		}
		return one(mkUF("itoabase", SStr, c.t(0), c.t(1)))
	}
	E["strconv.FormatBool"] = func(x *Exec, st *State, c *extCall) Val { return one(mkIte(c.t(0), mkStr("true"), mkStr("false"))) }
	// fmt, errors
	E["fmt.Sprintf"] = func(x *Exec, st *State, c *extCall) Val {
		vs, ok := x.variadic(c.sig, c.a, st)
		return one(x.sprintf(st, c.t(0), vs, ok))
	}
	E["fmt.Sprint"] = func(x *Exec, st *State, c *extCall) Val {
		vs, ok := x.variadic(c.sig, c.a, st)
		if !ok || len(vs) != 1 {
			return one(x.freshTerm("sprint", SStr))
		}
		return one(x.fmtAny(st, vs[0], 'v'))
	}
	E["fmt.Errorf"] = func(x *Exec, st *State, c *extCall) Val {
		vs, ok := x.variadic(c.sig, c.a, st)
		f := c.t(0)
		if f.op == "str" {
			f = mkStr(strings.ReplaceAll(f.s, "%w", "%v"))
		}
		return one(x.newError(x.sprintf(st, f, vs, ok)))
	}
	println := func(ln bool, off int) model {
		return func(x *Exec, st *State, c *extCall) Val {
			vs, ok := x.variadic(c.sig, c.a, st)
			text := TEmpty
			if !ok {
				text = x.freshTerm("print", SStr)
			}
			for i, v := range vs {
				if i > 0 && ln {
					text = mkCat(text, mkStr(" "))
				}
				text = mkCat(text, x.fmtAny(st, v, 'v'))
			}
			if ln {
				text = mkCat(text, mkStr("\n"))
			}
			if off == 1 {
				x.writeTo(st, c.t(0), text, "print")
			} else {
				e := x.event(st, "Print", nil)
				e.fields = map[string]any{"text": text}
			}
			return Val{mkPure("slen", text), TNil}
		}
	}
	E["fmt.Println"] = println(true, 0)
	E["fmt.Print"] = println(false, 0)
	E["fmt.Fprintln"] = println(true, 1)
	E["fmt.Fprint"] = println(false, 1)
	E["fmt.Printf"] = func(x *Exec, st *State, c *extCall) Val {
		vs, ok := x.variadic(c.sig, c.a, st)
		t := x.sprintf(st, c.t(0), vs, ok)
		e := x.event(st, "Print", nil)
		e.fields = map[string]any{"text": t}
		return Val{mkPure("slen", t), TNil}
	}
	E["fmt.Fprintf"] = func(x *Exec, st *State, c *extCall) Val {
		vs, ok := x.variadic(c.sig, c.a, st)
		t := x.sprintf(st, c.t(1), vs, ok)
		x.writeTo(st, c.t(0), t, "Fprintf")
		return Val{mkPure("slen", t), TNil}
	}
	E["io.WriteString"] = func(x *Exec, st *State, c *extCall) Val {
		x.writeTo(st, c.t(0), c.t(1), "WriteString")
		return Val{mkPure("slen", c.t(1)), TNil}
	}
	E["errors.New"] = func(x *Exec, st *State, c *extCall) Val { return one(x.newError(c.t(0))) }
	E["errors.Is"] = func(x *Exec, st *State, c *extCall) Val { return one(mkEq(c.t(0), c.t(1))) }
	E["errors.As"] = func(x *Exec, st *State, c *extCall) Val {
		x.use("errors.As: no wrapped errors")
		tgt := c.t(1)
		if isMk(tgt) && len(tgt.args) == 1 {
			if pt := typeTab[tgt.s[3:]]; pt != nil {
				el := derefType(pt)
				if !isIface(el) {
					is := isTag(c.t(0), typeName(el))
					old := x.load(st, tgt.args[0], el)
					x.store(st, tgt.args[0], el, iteVal(is, unboxVal(el, c.t(0)), old))
					return one(is)
				}
			}
		}
		x.unsupported(st, "errors.As")
		return one(x.freshTerm("errors.As", SBool))
	}
	// hashing and encoding
	for n, b := range map[string]string{"crypto/sha256.Sum256": "sha256", "crypto/sha512.Sum384": "sha384", "crypto/sha512.Sum512": "sha512"} {
		b := b
		E[n] = func(x *Exec, st *State, c *extCall) Val { return one(mkPure(b, x.bytesOf(st, c.a[0]))) }
	}
	for n, b := range map[string]string{"crypto/sha256.New": "sha256", "crypto/sha512.New384": "sha384", "crypto/sha512.New": "sha512"} {
		b := b
		E[n] = func(x *Exec, st *State, c *extCall) Val { return one(x.newRef("hash:" + b)) }
	}
	E["crypto.Hash.New"] = func(x *Exec, st *State, c *extCall) Val {
		out := x.freshTerm("hash", SRef)
		ls := leavesOf(c.t(0))
		for i := len(ls) - 1; i >= 0; i-- {
			if ls[i].t.op == "int" {
				if b := map[int64]string{5: "sha256", 6: "sha384", 7: "sha512"}[ls[i].t.n]; b != "" {
					out = mkIte(ls[i].g, x.newRef("hash:"+b), out)
				}
			}
		}
		return one(out)
	}
	E["crypto.Hash.Available"] = func(x *Exec, st *State, c *extCall) Val { return one(TTrue) }
	E["crypto/subtle.ConstantTimeCompare"] = func(x *Exec, st *State, c *extCall) Val {
		return one(mkIte(mkEq(x.bytesOf(st, c.a[0]), x.bytesOf(st, c.a[1])), mkInt(1), mkInt(0)))
	}
	eqb := func(x *Exec, st *State, c *extCall) Val {
		return one(mkEq(x.bytesOf(st, c.a[0]), x.bytesOf(st, c.a[1])))
	}
	E["crypto/hmac.Equal"] = eqb
	E["bytes.Equal"] = eqb
	kind := func(x *Exec, st *State, ref *Term) *Term {
		if ref.op == "lit" {
			switch ref.s {
			case "x:encoding/base64.StdEncoding":
				return mkStr("std")
			case "x:encoding/base64.URLEncoding":
				return mkStr("url")
			case "x:encoding/base64.RawStdEncoding":
				return mkStr("raw")
			case "x:encoding/base64.RawURLEncoding":
				return mkStr("rawurl")
			}
		}
		if ref.op == "uf" && ref.s == "b64nopad" {
			switch ref.args[0].s {
			case "x:encoding/base64.StdEncoding", "x:encoding/base64.RawStdEncoding":
				return rawKind(mkStr("std"))
			case "x:encoding/base64.URLEncoding", "x:encoding/base64.RawURLEncoding":
				return rawKind(mkStr("url"))
			}
		}
		return mkUF("b64kind", SStr, ref)
	}
	E["encoding/base64.Encoding.WithPadding"] = func(x *Exec, st *State, c *extCall) Val {
		enc, pad := c.t(0), c.a[1][0]
		if enc.op == "select" { // a method of the value: the load of its first field
			enc = enc.args[1]
		}
		if pad == mkInt(-1) && enc.op == "lit" {
			r := mkUF("b64nopad", SRef, enc)
			markNonNil(r)
			return one(r)
		}
		r := mkUF("b64pad", SRef, enc, pad)
		markNonNil(r)
		return one(r)
	}
	E["encoding/base64.Encoding.EncodeToString"] = func(x *Exec, st *State, c *extCall) Val {
		return one(mkPure("b64", kind(x, st, c.t(0)), x.bytesOf(st, c.a[1])))
	}
	E["encoding/base64.Encoding.DecodeString"] = func(x *Exec, st *State, c *extCall) Val {
		k := kind(x, st, c.t(0))
		ok := mkUF("b64decok", SBool, k, c.t(1))
		b := x.newBytes(st, mkIte(ok, mkUF("b64dec", SStr, k, c.t(1)), mkUF("b64bad", SStr, k, c.t(1))))
		return append(b, x.errUnless(ok, "base64"))
	}
	E["encoding/hex.EncodeToString"] = func(x *Exec, st *State, c *extCall) Val { return one(mkUF("hex", SStr, x.bytesOf(st, c.a[0]))) }
	E["net/url.QueryUnescape"] = func(x *Exec, st *State, c *extCall) Val {
		ok := mkPure("qunescapeok", c.t(0))
		return Val{mkIte(ok, mkPure("qunescape", c.t(0)), TEmpty), x.errUnless(ok, "unescape")}
	}
	E["encoding/json.Marshal"] = func(x *Exec, st *State, c *extCall) Val {
		x.use("encoding/json.Marshal of the types used: no error; an object with the fields given by the struct tags")
		t := x.jsonOf(st, types.NewInterfaceType(nil, nil), c.a[0], TTrue)
		return append(x.newBytes(st, t), TNil)
	}
	E["encoding/json.MarshalIndent"] = func(x *Exec, st *State, c *extCall) Val {
		ok := x.freshTerm("marshalok", SBool)
		return append(x.newBytes(st, x.freshTerm("jsonindent", SStr)), x.errUnless(ok, "json"))
	}
	E["encoding/json.Unmarshal"] = func(x *Exec, st *State, c *extCall) Val {
		j := x.bytesOf(st, c.a[0])
		tgt := c.t(1)
		if !isMk(tgt) || typeTab[tgt.s[3:]] == nil {
			x.unsupported(st, "json.Unmarshal target")
			return one(x.freshTerm("json.Unmarshal", SRef))
		}
		el := derefType(typeTab[tgt.s[3:]])
		ok := x.jsonInto(st, tgt.args[0], el, j, mkUF("isjson", SBool, j))
		return one(x.errUnless(ok, "json"))
	}
	E["encoding/json.Number.Int64"] = func(x *Exec, st *State, c *extCall) Val { return atoi(x, st, c.t(0)) }
	E["encoding/json.Number.String"] = func(x *Exec, st *State, c *extCall) Val { return one(c.t(0)) }
	E["github.com/google/go-querystring/query.Values"] = func(x *Exec, st *State, c *extCall) Val {
		x.use("go-querystring: one entry per url-tagged string field")
		r := x.newUV(st)
		v := c.t(0)
		if isMk(v) && typeTab[v.s[3:]] != nil {
			t := typeTab[v.s[3:]]
			fv := unboxVal(t, v)
			if p, ok := t.Underlying().(*types.Pointer); ok {
				fv = x.load(st, fv[0], p.Elem())
				t = p.Elem()
			}
			if s, ok := t.Underlying().(*types.Struct); ok {
				p, a := mkKArr(SStrSet, TFalse), mkKArr(SStrMap, TEmpty)
				for _, f := range structTags(s, "url") {
					lo, hi := fieldRange(s, f.index)
					var txt *Term
					if hi-lo == 1 {
						switch fv[lo].sort {
						case SStr:
							txt = fv[lo]
						case SInt:
							txt = mkPure("itoa", fv[lo])
						case SBool:
							txt = mkIte(fv[lo], mkStr("true"), mkStr("false"))
						}
					}
					if txt == nil {
						x.unsupported(st, "query.Values field "+f.field)
						continue
					}
					in := TTrue
					if f.omitempty {
						in = nonEmpty(f.typ, fv[lo:hi])
					}
					p = mkStore(p, mkStr(f.name), in)
					a = mkStore(a, mkStr(f.name), mkIte(in, txt, TEmpty))
				}
				x.wr(st, "UV:p", SStrSet, r, p)
				x.wr(st, "UV:v", SStrMap, r, a)
				return Val{r, TNil}
			}
		}
		x.unsupported(st, "query.Values argument")
		return Val{r, TNil}
	}
	// net/url
	E["net/url.Parse"] = func(x *Exec, st *State, c *extCall) Val {
		s := c.t(0)
		ok := mkUF("urlok", SBool, s)
		ut := derefType(c.sig.Results().At(0).Type())
		o := x.alloc(st, ut, "url.URL")
		for _, l := range leavesOfType(ut) {
			n := "url:" + l.path
			switch l.path {
			case "RawQuery":
				n = "urlquery"
			case "Fragment":
				n = "urlfragment"
			}
			x.wr(st, "F:"+typeName(ut)+"."+l.path, l.sort, o, mkUF(n, l.sort, s))
		}
		x.wr(st, "URLSRC", SStr, o, s)
		return Val{mkIte(ok, o, TNil), x.errUnless(ok, "url")}
	}
	E["net/url.ParseRequestURI"] = E["net/url.Parse"]
	E["net/url.URL.Query"] = func(x *Exec, st *State, c *extCall) Val {
		if r := x.rootRef("r"); r != nil {
			rt := derefType(x.rootVars["r"].(*TV).typ)
			if fieldOf(x, x.st0, r, rt, "URL") == c.t(0) {
				q := mkUF("queryvals", SRef, c.t(0))
				markNonNil(q)
				return one(q)
			}
		}
		u := x.newRef("url.Values")
		x.wr(st, "UV:p", SStrSet, u, x.freshTerm("uvp", SStrSet))
		x.wr(st, "UV:v", SStrMap, u, x.freshTerm("uvv", SStrMap))
		return one(u)
	}
	E["net/url.URL.String"] = func(x *Exec, st *State, c *extCall) Val { return one(x.freshTerm("urlstring", SStr)) }
	E["net/url.Values.Get"] = func(x *Exec, st *State, c *extCall) Val {
		_, v := x.uvGet(st, c.t(0), c.t(1))
		return one(v)
	}
	E["net/url.Values.Has"] = func(x *Exec, st *State, c *extCall) Val {
		p, _ := x.uvGet(st, c.t(0), c.t(1))
		return one(p)
	}
	E["net/url.Values.Set"] = func(x *Exec, st *State, c *extCall) Val { x.uvSet(st, c.t(0), c.t(1), c.t(2)); return nil }
	E["net/url.Values.Add"] = func(x *Exec, st *State, c *extCall) Val { x.uvAdd(st, c.t(0), c.t(1), c.t(2)); return nil }
	E["net/url.Values.Del"] = func(x *Exec, st *State, c *extCall) Val { x.uvDel(st, c.t(0), c.t(1)); return nil }
	E["net/url.Values.Encode"] = func(x *Exec, st *State, c *extCall) Val { return one(x.uvEncode(st, c.t(0))) }
	// net/http
	isReq := func(x *Exec, c *extCall) bool { return x.rootRef("r") != nil && x.rootRef("r") == c.t(0) }
	parsed := func(x *Exec, st *State, c *extCall) {
		rt := derefType(c.f.Signature.Recv().Type())
		fv, pv := mkUF("formvals", SRef, c.t(0)), mkUF("postvals", SRef, c.t(0))
		markNonNil(fv)
		markNonNil(pv)
		x.quietWr(st, "F:"+typeName(rt)+".Form", SRef, c.t(0), fv)
		x.quietWr(st, "F:"+typeName(rt)+".PostForm", SRef, c.t(0), pv)
	}
	formf := func(f string) model {
		return func(x *Exec, st *State, c *extCall) Val {
			x.use("http.Request form values: functions of the key, constant while the request is served")
			if !isReq(x, c) {
				return one(x.freshTerm(f, SStr))
			}
			parsed(x, st, c)
			return one(mkUF(f, SStr, c.t(1)))
		}
	}
	E["net/http.Request.FormValue"] = formf("form")
	E["net/http.Request.PostFormValue"] = formf("postform")
	E["net/http.Request.ParseForm"] = func(x *Exec, st *State, c *extCall) Val {
		parsed(x, st, c)
		return one(x.freshTerm("parseform", SRef))
	}
	E["net/http.Request.ParseMultipartForm"] = E["net/http.Request.ParseForm"]
	E["net/http.Request.BasicAuth"] = func(x *Exec, st *State, c *extCall) Val {
		rt := derefType(c.f.Signature.Recv().Type())
		h := fieldOf(x, st, c.t(0), rt, "Header")
		_, a := x.hdrGetQuiet(st, h, mkStr("Authorization"))
		ok := mkUF("basicok", SBool, a)
		return Val{mkIte(ok, mkUF("basicuser", SStr, a), TEmpty), mkIte(ok, mkUF("basicpass", SStr, a), TEmpty), ok}
	}
	E["net/http.Request.UserAgent"] = func(x *Exec, st *State, c *extCall) Val {
		_, a := x.hdrGetQuiet(st, fieldOf(x, st, c.t(0), derefType(c.f.Signature.Recv().Type()), "Header"), mkStr("User-Agent"))
		return one(a)
	}
	E["net/http.Header.Get"] = func(x *Exec, st *State, c *extCall) Val {
		_, v := x.hdrGetQuiet(st, c.t(0), c.t(1))
		return one(v)
	}
	E["net/http.Header.Values"] = func(x *Exec, st *State, c *extCall) Val {
		p, v := x.hdrGet(st, "net/http.Header", c.t(0), canonHeader(c.t(1)))
		return iteVal(p, x.valueList(st, "net/http.Header", c.t(0), canonHeader(c.t(1)), p, v), Val{TNil, mkInt(0), mkInt(0)})
	}
	E["net/http.Header.Set"] = func(x *Exec, st *State, c *extCall) Val { x.headerSet(st, c.t(0), c.t(1), c.t(2)); return nil }
	E["net/http.Header.Add"] = func(x *Exec, st *State, c *extCall) Val {
		p := mkSelect(x.rd(st, "HDR:p", SStrSet, c.t(0)), canonHeader(c.t(1)))
		_, v := x.hdrGetQuiet(st, c.t(0), c.t(1))
		x.headerSet(st, c.t(0), c.t(1), mkIte(p, v, c.t(2)))
		return nil
	}
	E["net/http.Header.Del"] = func(x *Exec, st *State, c *extCall) Val { x.headerDel(st, c.t(0), c.t(1)); return nil }
	E["net/http.Redirect"] = func(x *Exec, st *State, c *extCall) Val {
		x.use("http.Redirect: sends the given absolute URL as Location")
		x.mustNot(st, mkOr(mkLt(c.t(3), mkInt(100)), mkLt(mkInt(999), c.t(3))), "invalid WriteHeader code")
		e := x.event(st, "Redirect", nil)
		e.fields = map[string]any{"url": c.t(2), "code": c.t(3), "header": &HdrV{x, e.st}}
		return nil
	}
	E["net/http.Error"] = func(x *Exec, st *State, c *extCall) Val {
		h := mkUF("whdr", SRef, c.t(0))
		x.headerSet(st, h, mkStr("Content-Type"), mkStr("text/plain; charset=utf-8"))
		x.headerSet(st, h, mkStr("X-Content-Type-Options"), mkStr("nosniff"))
		x.rwCall(c.t(0), "WriteHeader", nil, []Val{{c.t(2)}}, st)
		x.writeEvent(st, mkCat(c.t(1), mkStr("\n")))
		return nil
	}
	// time
	E["time.Now"] = func(x *Exec, st *State, c *extCall) Val {
		x.use("the clock is constant while one request is served")
		return one(mkConst("realnow", SRef))
	}
	E["time.Unix"] = func(x *Exec, st *State, c *extCall) Val {
		if c.t(1) != mkInt(0) {
			return one(mkUF("timeadd", SRef, mkUF("timeunix", SRef, c.t(0)), c.t(1)))
		}
		return one(mkUF("timeunix", SRef, c.t(0)))
	}
	E["time.Time.Unix"] = func(x *Exec, st *State, c *extCall) Val { return one(mkUF("unix", SInt, c.t(0))) }
	nanos := func(t *Term) *Term { return mkUF("nanos", SInt, t) }
	E["time.Time.UnixNano"] = func(x *Exec, st *State, c *extCall) Val { return one(nanos(c.t(0))) }
	E["time.Time.Before"] = func(x *Exec, st *State, c *extCall) Val { return one(mkLt(nanos(c.t(0)), nanos(c.t(1)))) }
	E["time.Time.After"] = func(x *Exec, st *State, c *extCall) Val { return one(mkLt(nanos(c.t(1)), nanos(c.t(0)))) }
	E["time.Time.Equal"] = func(x *Exec, st *State, c *extCall) Val { return one(mkEq(nanos(c.t(1)), nanos(c.t(0)))) }
	E["time.Time.Sub"] = func(x *Exec, st *State, c *extCall) Val { return one(mkSub(nanos(c.t(0)), nanos(c.t(1)))) }
	E["time.Time.Add"] = func(x *Exec, st *State, c *extCall) Val { return one(mkUF("timeadd", SRef, c.t(0), c.t(1))) }
	for _, n := range []string{"UTC", "Local"} {
		E["time.Time."+n] = func(x *Exec, st *State, c *extCall) Val { return one(c.t(0)) }
	}
	// jwt
	E[jwtPkg+".Parse"] = func(x *Exec, st *State, c *extCall) Val {
		kt := c.sig.Params().At(1).Type()
		return x.jwtParse(st, c.t(0), c.t(1), kt.Underlying().(*types.Signature), kt, TFalse)
	}
	E[jwtPkg+".ParseWithClaims"] = func(x *Exec, st *State, c *extCall) Val {
		kt := c.sig.Params().At(2).Type()
		if !isMk(c.t(1)) || c.t(1).s != "mk:"+jwtPkg+".MapClaims" {
			x.unsupported(st, "ParseWithClaims with a claims type other than MapClaims")
		}
		return x.jwtParse(st, c.t(0), c.t(2), kt.Underlying().(*types.Signature), kt, TFalse)
	}
	E[jwtPkg+".Parser.Parse"] = func(x *Exec, st *State, c *extCall) Val {
		kt := c.sig.Params().At(1).Type()
		pt := derefType(c.f.Signature.Recv().Type())
		skip := fieldOf(x, st, c.t(0), pt, "SkipClaimsValidation")
		vm := x.load(st, mkFieldAddr(x, c.t(0), pt, "ValidMethods"), fieldType(pt, "ValidMethods"))
		if vm[0] != TNil {
			x.unsupported(st, "jwt.Parser with ValidMethods")
		}
		return x.jwtParse(st, c.t(1), c.t(2), kt.Underlying().(*types.Signature), kt, skip)
	}
	E[jwtPkg+".Parser.ParseUnverified"] = func(x *Exec, st *State, c *extCall) Val {
		tok := x.jwtToken(st, c.t(1))
		bad := mkOr(mkUF("jwtmalformed", SBool, c.t(1)), mkNot(mkUF("jwtalgok", SBool, c.t(1))))
		e, _ := x.jwtError(st, TNil, mkInt(1))
		sl := x.fresh("parts", c.sig.Results().At(1).Type())
		return append(append(Val{mkIte(bad, TNil, tok)}, sl...), mkIte(bad, e, TNil))
	}
	E[jwtPkg+".GetSigningMethod"] = func(x *Exec, st *State, c *extCall) Val {
		m := mkUF("jwtmethod", SRef, c.t(0))
		markNonNil(m)
		return one(mkIte(algKnown(c.t(0)), m, TNil))
	}
	newTok := func(x *Exec, st *State, method, claims *Term) *Term {
		tt := x.extType(jwtPkg, "Token")
		tok := x.alloc(st, tt, "jwt.Token")
		hm := fieldType(tt, "Header").Underlying().(*types.Map)
		h := x.newMap(st, hm)
		x.mapPut(st, hm, h, mkStr("typ"), Val{boxVal(types.Typ[types.String], Val{mkStr("JWT")})})
		x.mustNot(st, mkEq(method, TNil), "jwt.New with a nil signing method")
		x.mapPut(st, hm, h, mkStr("alg"), Val{boxVal(types.Typ[types.String], Val{mkUF("methodalg", SStr, method)})})
		x.store(st, mkFieldAddr(x, tok, tt, "Header"), fieldType(tt, "Header"), Val{h})
		x.store(st, mkFieldAddr(x, tok, tt, "Method"), fieldType(tt, "Method"), Val{method})
		x.store(st, mkFieldAddr(x, tok, tt, "Claims"), fieldType(tt, "Claims"), Val{claims})
		return tok
	}
	E[jwtPkg+".New"] = func(x *Exec, st *State, c *extCall) Val {
		mc := x.extType(jwtPkg, "MapClaims")
		m := x.newMap(st, mc.Underlying().(*types.Map))
		return one(newTok(x, st, c.t(0), boxVal(mc, Val{m})))
	}
	E[jwtPkg+".NewWithClaims"] = func(x *Exec, st *State, c *extCall) Val {
		if !isMk(c.t(1)) || c.t(1).s != "mk:"+jwtPkg+".MapClaims" {
			x.unsupported(st, "jwt.NewWithClaims with a claims type other than MapClaims")
		}
		return one(newTok(x, st, c.t(0), c.t(1)))
	}
	E[jwtPkg+".Token.SignedString"] = func(x *Exec, st *State, c *extCall) Val { return x.jwtSign(st, c.t(0), c.t(1)) }
	E[jwtPkg+".ValidationError.Error"] = func(x *Exec, st *State, c *extCall) Val { return one(mkUF("errtext", SStr, c.t(0))) }
	// no modelled effect
	for _, n := range []string{"sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock", "math/rand.Seed"} {
		nop(n)
	}
	// key loading and JWK
	E["encoding/pem.Decode"] = func(x *Exec, st *State, c *extCall) Val {
		d := x.bytesOf(st, c.a[0])
		ok := mkUF("pemok", SBool, d)
		bt := derefType(c.sig.Results().At(0).Type())
		o := x.alloc(st, bt, "pem.Block")
		x.store(st, mkFieldAddr(x, o, bt, "Type"), types.Typ[types.String], Val{mkUF("pemtype", SStr, d)})
		b := x.newBytes(st, mkUF("pembytes", SStr, d))
		x.store(st, mkFieldAddr(x, o, bt, "Bytes"), fieldType(bt, "Bytes"), b)
		return append(Val{mkIte(ok, o, TNil)}, x.newBytes(st, x.freshTerm("pemrest", SStr))...)
	}
	fileRead := func(x *Exec, st *State, c *extCall) Val {
		ok := mkUF("fileok", SBool, c.t(0))
		b := x.newBytes(st, mkUF("filedata", SStr, c.t(0)))
		return append(iteVal(ok, b, Val{TNil, mkInt(0), mkInt(0)}), x.errUnless(ok, "file"))
	}
	E["io/ioutil.ReadFile"] = fileRead
	E["os.ReadFile"] = fileRead
	for n, f := range map[string]string{"crypto/x509.ParsePKIXPublicKey": "pkix", "crypto/x509.ParsePKCS1PrivateKey": "pkcs1", "crypto/x509.ParsePKCS8PrivateKey": "pkcs8", "crypto/x509.ParsePKCS1PublicKey": "pkcs1pub"} {
		f := f
		E[n] = func(x *Exec, st *State, c *extCall) Val {
			d := x.bytesOf(st, c.a[0])
			ok := mkUF(f+"ok", SBool, d)
			k := mkUF(f+"key", SRef, d)
			x.fact(TTrue, mkNot(mkEq(k, TNil)))
			return Val{mkIte(ok, k, TNil), x.errUnless(ok, f)}
		}
	}
}

func (x *Exec) hdrGetQuiet(st *State, ref, k *Term) (*Term, *Term) {
	if ref.op == "ite" {
		_, a := x.hdrGetQuiet(st, ref.args[1], k)
		_, b := x.hdrGetQuiet(st, ref.args[2], k)
		return nil, mkIte(ref.args[0], a, b)
	}
	if ref == TNil {
		return nil, TEmpty
	}
	return nil, mkSelect(x.rd(st, "HDR:v", SStrMap, ref), canonHeader(k))
}

func (x *Exec) zeroResult(sig *types.Signature) Val { return zeroVal(resultType(sig)) }

// readOnlyPkgs never write through their arguments (in functions without a contract here).
var readOnlyPkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "math": true, "path": true,
	"html": true, "fmt": true, "time": true, "encoding/hex": true, "encoding/base64": true, "net/url": true, "crypto/subtle": true, "math/big": true,
	"crypto/sha256": true, "crypto/sha512": true, "crypto/sha1": true, "crypto/md5": true, "reflect": true, "mime": true, "regexp": true}

// mayWriteThrough is true for types that give access to shared memory.
func mayWriteThrough(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayWriteThrough(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return mayWriteThrough(u.Elem())
	}
	return true
}

// basicParts reads back a Basic header whose user part holds no colon.
func basicParts(t *Term) (u, p *Term, ok bool) {
	ps := catParts(t)
	if len(ps) != 2 || ps[0].op != "str" || !strings.EqualFold(ps[0].s, "Basic ") || ps[1].op != "uf" || ps[1].s != "b64" || ps[1].args[0] != mkStr("std") {
		return nil, nil, false
	}
	in := catParts(ps[1].args[1])
	for i, q := range in {
		if q.op == "str" {
			if j := strings.IndexByte(q.s, ':'); j >= 0 {
				return mkCat(append(append([]*Term{}, in[:i]...), mkStr(q.s[:j]))...), mkCat(append([]*Term{mkStr(q.s[j+1:])}, in[i+1:]...)...), true
			}
			continue
		}
		if q.op != "uf" || q.s != "qescape" {
			return nil, nil, false
		}
	}
	return nil, nil, false
}
