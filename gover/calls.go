package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif.local/spec"
)

// ---- references known to be non-nil ----

var nonNil = map[*Term]bool{}

func markNonNil(t *Term) {
	if t.op != "lit" {
		nonNil[t] = true
	}
}

// ---- type names ----

var typeTab = map[string]types.Type{}

func noteType(t types.Type) { typeTab[typeName(t)] = t }

func (p *Program) noteType(t types.Type) { noteType(t) }

func (p *Program) typeByName(n string) types.Type { return typeTab[n] }

// ---- dispatch ----

func (x *Exec) call(fr *Frame, c *ssa.CallCommon, inst ssa.Value, st *State) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	if c.IsInvoke() {
		v, s := x.invoke(x.val(fr, c.Value)[0], c.Value.Type(), c.Method, args, st)
		*st = *s
		return v
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(fr, f.Name(), c, args, st, inst.Type())
	case *ssa.Function:
		v, s := x.callFn(f, args, nil, st)
		*st = *s
		return v
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range f.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		v, s := x.callFn(f.Fn.(*ssa.Function), args, bs, st)
		*st = *s
		return v
	}
	v, s := x.callRef(x.val(fr, c.Value)[0], args, c.Signature(), c.Value.Type(), st)
	*st = *s
	return v
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// callFn calls a statically known function.
func (x *Exec) callFn(f *ssa.Function, args []Val, binds []Val, st *State) (Val, *State) {
	name := funcName(f)
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil && len(f.Params) == 0 {
		return nil, st
	}
	if name == rootsPkg+".Serving" {
		x.ownAlloc = map[*Term]bool{}
		x.writes = nil
		return nil, st
	}
	if isRepoFunc(f) {
		if name == "authorization.ResponseHandlerForMode" && name != x.noCall && len(args) == 3 && len(args[0]) == 1 {
			// the handler is named by its arguments; what it does is proved of the real one (C18)
			x.callees[name] = true
			h := mkUF("rh", SRef, args[0][0], args[1][0], args[2][0])
			markNonNil(h)
			return Val{h}, st
		}
		if c := x.callContract(name); c != nil {
			return x.applyContract(f, c, args, st)
		}
		return x.inline(f, args, binds, st)
	}
	s := st.clone()
	v := x.extern(name, f, f.Signature, args, s)
	return v, s
}

// callContract gives the contract used in place of the body, if any.
func (x *Exec) callContract(name string) *spec.Contract {
	if name == x.noCall {
		return nil
	}
	c := x.set.FuncContract(name)
	if c == nil || !c.Flags["use"] || c.Ignore {
		return nil
	}
	return c
}

func (x *Exec) applyContract(f *ssa.Function, c *spec.Contract, args []Val, st *State) (Val, *State) {
	x.callees[c.Root] = true
	s := st.clone()
	var env *spec.Env
	for i, p := range c.Params {
		if i < len(args) {
			env = env.With(p, &TV{x, f.Params[i].Type(), args[i], s})
		}
	}
	b := &symBackend{x: x, st: s}
	res := f.Signature.Results()
	for _, cl := range c.Clauses {
		if cl.Kind != "requires" {
			continue
		}
		t, err := x.evalTerm(b, env, cl.E)
		if err != nil {
			x.unsupported(s, "contract "+c.Root+": "+err.Error())
			continue
		}
		if t != TTrue {
			x.obls = append(x.obls, &Obl{"requires", "precondition of " + c.Root, s.pc, t, x.where()})
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind != "returns" {
			continue
		}
		var v Val
		for i, e := range cl.Es {
			t, err := x.evalTerm(b, env, e)
			if err != nil {
				x.unsupported(s, "contract "+c.Root+": "+err.Error())
				return x.fresh(c.Root, resultType(f.Signature)), s
			}
			if ls := leavesOfType(res.At(i).Type()); len(ls) != 1 || ls[0].sort != t.sort {
				x.unsupported(s, "contract "+c.Root+": result sort")
				return x.fresh(c.Root, resultType(f.Signature)), s
			}
			v = append(v, t)
		}
		return v, s
	}
	// no functional clause: an arbitrary result that satisfies the postconditions
	v := x.fresh(c.Root, resultType(f.Signature))
	e2 := env
	for i := 0; i < res.Len(); i++ {
		lo, hi := tupleRange(res, i)
		if res.Len() == 1 {
			lo, hi = 0, len(v)
		}
		e2 = e2.With(fmt.Sprintf("ret%d", i), &TV{x, res.At(i).Type(), v[lo:hi], s})
		if i == 0 {
			e2 = e2.With("ret", &TV{x, res.At(i).Type(), v[lo:hi], s})
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind != "ensures" {
			continue
		}
		t, err := x.evalTerm(b, e2, cl.E)
		if err != nil {
			x.unsupported(s, "contract "+c.Root+": "+err.Error())
			continue
		}
		x.fact(s.pc, t)
	}
	return v, s
}

func (x *Exec) evalTerm(b *symBackend, env *spec.Env, e *spec.Expr) (*Term, error) {
	v, err := x.set.Eval(b, env, e)
	if err != nil {
		return nil, err
	}
	return b.term(v)
}

// callRef calls a function value.
func (x *Exec) callRef(f *Term, args []Val, sig *types.Signature, ft types.Type, st *State) (Val, *State) {
	var ins []inState
	base := st.pc
	lost0 := x.lost
	lv := leavesOf(f)
	for _, l := range lv {
		s := st
		if l.g != TTrue {
			s = st.with(l.g)
			if s.pc == TFalse {
				continue
			}
		}
		if l.t == TNil {
			s = s.clone()
			x.mustNot(s, TTrue, "call of a nil function")
			continue
		}
		if c := x.closures[l.t]; c != nil {
			v, o := x.callFn(c.fn, args, c.binds, s)
			ins = append(ins, inState{o, v})
			continue
		}
		s = s.clone()
		if l.t.op != "lit" {
			x.mustNot(s, mkEq(l.t, TNil), "call of a nil function")
		}
		if s.pc == TFalse {
			continue
		}
		v := x.callOpaque(l.t, typeName(ft), args, sig, s)
		ins = append(ins, inState{s, v})
	}
	o, v := mergeStates(ins)
	if x.lost == lost0 && len(lv) > 0 {
		o.pc = base
	}
	if v == nil {
		v = zeroVal(resultType(sig))
	}
	return v, o
}

// callOpaque calls a function value supplied by the library's user.
func (x *Exec) callOpaque(f *Term, tn string, args []Val, sig *types.Signature, st *State) Val {
	switch tn {
	case "io.TimeBuilder":
		x.use("the clock is constant while one request is served")
		return Val{mkConst("now", SRef)}
	case "oauth_error.OAuthErrorURIBuilder":
		x.use("OAuthErrorURIBuilder: a function of the error type")
		return Val{mkUF("erruri", SStr, f, args[0][0])}
	case "grant.GrantHandlerFunc":
		e := x.event(st, "Grant", nil)
		res := x.freshEv(e, "res", SRef)
		err := x.freshEv(e, "err", SRef)
		ps := sig.Params()
		e.fields = map[string]any{
			"handler": f,
			"client":  &TV{x, ps.At(1).Type(), args[1], e.st},
			"time":    args[4][0],
			"res":     &TV{x, sig.Results().At(0).Type(), Val{res}, e.st},
			"err":     &TV{x, sig.Results().At(1).Type(), Val{err}, e.st},
		}
		x.use("a grant handler returns exactly one of a response and an error")
		x.fact(st.pc, mkEq(mkEq(res, TNil), mkNot(mkEq(err, TNil))))
		return Val{res, err}
	}
	x.use("opaque function value of type " + tn + ": arbitrary result, no effect on modelled state")
	return x.fresh("opaque", resultType(sig))
}

func (x *Exec) use(s string) { x.used[s]++ }

func (x *Exec) freshEv(e *Event, f string, s *Sort) *Term {
	return mkConst(fmt.Sprintf("%s#%d.%s", e.name, e.num, f), s)
}

// ---- interface method calls ----

func (x *Exec) invoke(recv *Term, it types.Type, m *types.Func, args []Val, st *State) (Val, *State) {
	base := st.pc
	lost0 := x.lost
	sig := m.Type().(*types.Signature)
	var ins []inState
	lv := leavesOf(recv)
	for _, l := range lv {
		s := st
		if l.g != TTrue {
			s = st.with(l.g)
			if s.pc == TFalse {
				continue
			}
		}
		s = s.clone()
		x.mustNot(s, mkEq(l.t, TNil), "method "+m.Name()+" called on a nil "+typeName(it))
		if s.pc == TFalse || l.t == TNil {
			continue
		}
		if isMk(l.t) {
			if t := typeTab[l.t.s[3:]]; t != nil {
				f := x.lookupMethod(t, m.Pkg(), m.Name())
				if f != nil {
					a := append([]Val{Val(l.t.args)}, args...)
					if len(l.t.args) != len(leavesOfType(t)) {
						a[0] = unboxVal(t, l.t)
					}
					v, o := x.callFn(f, a, nil, s)
					ins = append(ins, inState{o, v})
					continue
				}
			}
		}
		v := x.ifaceCall(l.t, it, m, sig, args, s)
		ins = append(ins, inState{s, v})
	}
	o, v := mergeStates(ins)
	if x.lost == lost0 && len(lv) > 0 {
		o.pc = base
	}
	if v == nil {
		v = zeroVal(resultType(sig))
	}
	return v, o
}

// event parameter names of the interfaces implemented by the library's user
var ifaceParams = map[string][]string{
	"FindClientById":                  {"clientId"},
	"FindAuthSessionByCode":           {"code"},
	"FindActiveAuthInfoById":          {"id"},
	"FindAuthInfoByUserIdAndClientId": {"uid", "clientId"},
	"FindOAuthTokenByAccessToken":     {"token"},
	"FindOAuthTokenByRefreshToken":    {"token"},
	"CreateOAuthToken":                {"info", "onTokenEndpoint"},
	"RefreshAccessToken":              {"info", "token"},
	"FindUserId":                      {"username", "password"},
	"CreateOrUpdateAuthInfo":          {"uid", "clientId", "scope"},
	"CreateAuthSession":               {"info", "session"},
	"DisableSession":                  {"sess"},
	"FindUserIdBySubject":             {"sub"},
	"RecordAssertionClaims":           {"clientId", "jti", "issuedAt", "expiredAt"},
	"ShowErrorScreen":                 {"kind"},
	"ShowLoginScreen":                 {"req"},
	"ShowConsentScreen":               {"client", "req"},
	"ChooseLocale":                    {"locales"},
	"ConfirmLoginSession":             {},
	"RequestIsFromLogin":              {},
	"GetAuthTime":                     {},
	"GetLoginUserId":                  {},
	"CreateAuthorizationCode":         {},
	"Continue":                        {},
	"LoginUserIsMatchedToSubject":     {"sub"},
}

// methodTerm is the pure function standing for a getter.
func methodTerm(it types.Type, name string, s *Sort, recv *Term, args []Val) *Term {
	as := []*Term{recv}
	for _, a := range args {
		as = append(as, a...)
	}
	return mkUF("m:"+typeName(it)+"."+name, s, as...)
}

func (x *Exec) ifaceCall(recv *Term, it types.Type, m *types.Func, sig *types.Signature, args []Val, st *State) Val {
	tn := typeName(it)
	name := m.Name()
	switch tn {
	case "bridge.DataInterface", "bridge.AuthorizationCallbacks":
		if name == "Issuer" {
			x.use("bridge.DataInterface.Issuer: constant")
			return Val{methodTerm(it, name, SStr, recv, nil)}
		}
		ps, ok := ifaceParams[name]
		if !ok {
			break
		}
		return x.bridgeEvent(recv, it, name, ps, sig, args, st)
	case "bridge.Client", "bridge.AuthInfo", "bridge.AuthSession", "bridge.OAuthToken":
		x.use(tn + ": getters are functions of the object while one request is served")
		return x.pureMethod(it, name, sig, recv, args, st)
	case "log.Logger":
		e := x.event(st, "Log", nil)
		text := TEmpty
		if vs, ok := x.variadic(sig, args, st); ok {
			for _, v := range vs {
				text = mkCat(text, x.fmtAny(st, v, 'v'))
			}
		} else {
			text = x.freshTerm("logtext", SStr)
		}
		if strings.HasSuffix(name, "f") && len(args) > 1 {
			text = mkCat(args[0][0], text)
		}
		e.fields = map[string]any{"level": mkStr(name), "text": text}
		x.use("log.Logger: no effect on modelled state")
		return nil
	case "net/http.ResponseWriter":
		return x.rwCall(recv, name, sig, args, st)
	case "authorization.ResponseHandler":
		e := x.event(st, "Respond", nil)
		f := map[string]any{"kind": mkStr(name), "mode": x.rhMode(recv), "rh": recv, "uri": args[0][0]}
		if name == "Success" {
			f["params"] = &TV{x, sig.Params().At(1).Type(), args[1], e.st}
			f["error"], f["desc"], f["state"] = TEmpty, TEmpty, TEmpty
		} else {
			f["error"], f["desc"], f["state"] = args[1][0], args[2][0], args[3][0]
		}
		e.fields = f
		return nil
	case "pkce.Verifier":
		return x.pureMethod(it, name, sig, recv, args, st)
	case "error":
		return Val{mkUF("errtext", SStr, recv)}
	case "github.com/golang-jwt/jwt.SigningMethod":
		if name == "Alg" {
			if recv.op == "uf" && recv.s == "jwtmethod" {
				return Val{recv.args[0]}
			}
			return Val{mkUF("methodalg", SStr, recv)}
		}
	case "crypto.Signer", "interface{Public() crypto.PublicKey}":
		if name == "Public" {
			x.use("crypto.Signer.Public: function of the key")
			return Val{mkUF("pubkey", SRef, recv)}
		}
	case "fmt.Stringer":
		return Val{mkUF("strtext", SStr, recv)}
	case "hash.Hash":
		if k := hashKind(recv); k != "" {
			x.use("hash functions: functions of the bytes written")
			old := x.rd(st, "SB", SStr, recv)
			switch name {
			case "Write":
				s := x.bytesOf(st, args[0])
				x.wr(st, "SB", SStr, recv, mkCat(old, s))
				return Val{mkPure("slen", s), TNil}
			case "Sum":
				return x.newBytes(st, mkCat(x.bytesOf(st, args[0]), mkPure(k, old)))
			case "Reset":
				x.wr(st, "SB", SStr, recv, TEmpty)
				return nil
			}
		}
	case "context.Context", "reflect.Type":
	}
	x.use("interface method " + tn + "." + name + ": arbitrary result, no effect on modelled state")
	return x.fresh(tn+"."+name, resultType(sig))
}

// hashKind is the function computed by a hash object.
func hashKind(t *Term) string {
	if t.op == "lit" {
		if i := strings.Index(t.s, ":hash:"); i > 0 {
			return t.s[i+6:]
		}
	}
	return ""
}

func (x *Exec) rhMode(recv *Term) *Term {
	if recv.op == "uf" && recv.s == "rh" {
		return recv.args[0]
	}
	return mkUF("rhmode", SStr, recv)
}

// pureMethod models a getter.
func (x *Exec) pureMethod(it types.Type, name string, sig *types.Signature, recv *Term, args []Val, st *State) Val {
	var v Val
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		for _, l := range leavesOfType(rs.At(i).Type()) {
			n := name
			if i > 0 || l.path != "" {
				n = fmt.Sprintf("%s/%d%s", name, i, l.path)
			}
			t := methodTerm(it, n, l.sort, recv, args)
			v = append(v, t)
			switch typeName(rs.At(i).Type()) {
			case "prompt.NonePromptPolicy":
				x.fact(TTrue, mkAnd(mkLe(mkInt(0), t), mkLe(t, mkInt(3))))
			case "prompt.NoConsentPromptPolicy":
				x.fact(TTrue, mkAnd(mkLe(mkInt(0), t), mkLe(t, mkInt(1))))
			}
		}
	}
	return v
}

// bridgeEvent is one call of the storage or callback interface.
func (x *Exec) bridgeEvent(recv *Term, it types.Type, name string, ps []string, sig *types.Signature, args []Val, st *State) Val {
	e := x.event(st, name, map[string]any{})
	for i, p := range ps {
		if i < len(args) {
			e.fields[p] = &TV{x, sig.Params().At(i).Type(), args[i], e.st}
		}
	}
	rs := sig.Results()
	var v Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		isErr := typeName(t) == "*bridge.Error" || typeName(t) == "error"
		f := "res"
		if isErr {
			f = "err"
		}
		var c Val
		for _, l := range leavesOfType(t) {
			n := f
			if l.path != "" {
				n += "." + l.path
			}
			c = append(c, x.freshEv(e, n, l.sort))
		}
		v = append(v, c...)
		e.fields[f] = &TV{x, t, c, e.st}
		if typeName(t) == "*bridge.Error" {
			typ := x.bridgeErrType(c[0], t, st)
			x.fact(st.pc, mkImp(mkNot(mkEq(c[0], TNil)), mkAnd(mkLe(mkInt(0), typ), mkLe(typ, mkInt(2)))))
		}
		if name == "Continue" && f == "res" {
			rt := derefType(t)
			fl := x.load(st, mkFieldAddr(x, c[0], rt, "Flow"), fieldType(rt, "Flow"))[0]
			ty := x.load(st, mkFieldAddr(x, fl, derefType(fieldType(rt, "Flow")), "Type"), types.Typ[types.Int])[0]
			err := x.freshEv(e, "err", SRef)
			x.fact(st.pc, mkImp(mkEq(err, TNil), mkAnd(mkNot(mkEq(c[0], TNil)), mkNot(mkEq(fl, TNil)), mkLe(mkInt(0), ty), mkLe(ty, mkInt(2)))))
			x.use("AuthorizationCallbacks.Continue: no error implies the request that was shown earlier, with its flow")
		}
	}
	x.use(typeName(it) + "." + name + ": arbitrary results; bridge errors are built by bridge.NewError with a declared type")
	return v
}

// bridgeErrType reads the type of a bridge error through its accessor.
func (x *Exec) bridgeErrType(e *Term, t types.Type, st *State) *Term {
	x.quiet++
	defer func() { x.quiet-- }()
	f := x.lookupMethod(t, nil, "Type")
	if f == nil || len(f.Blocks) == 0 {
		return x.freshTerm("errtype", SInt)
	}
	s := &State{mkNot(mkEq(e, TNil)), st.heap}
	v, _ := x.pureCall(f, []Val{{e}}, s)
	return v[0]
}

// pureCall evaluates a function without leaving any trace.
func (x *Exec) pureCall(f *ssa.Function, args []Val, st *State) (Val, *State) {
	ne, no, nw, nu, lost := len(x.events), len(x.obls), len(x.writes), len(x.unsup), x.lost
	cnt := map[string]int{}
	for k, v := range x.evCount {
		cnt[k] = v
	}
	inl := x.inlined
	x.inlined = map[string]int{}
	v, s := x.inline(f, args, nil, st)
	x.events, x.obls, x.writes, x.unsup, x.lost = x.events[:ne], x.obls[:no], x.writes[:nw], x.unsup[:nu], lost
	x.evCount = cnt
	x.inlined = inl
	return v, s
}

func fieldType(t types.Type, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// variadic lists the elements of the final ...any parameter.
func (x *Exec) variadic(sig *types.Signature, args []Val, st *State) ([]*Term, bool) {
	if !sig.Variadic() || len(args) == 0 {
		return nil, false
	}
	last := args[len(args)-1]
	el := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
	if len(last) != 3 || len(leavesOfType(el)) != 1 {
		return nil, false
	}
	if last[0] == TNil {
		return nil, true
	}
	es, ok := x.sliceElems(st, last, el)
	if !ok {
		return nil, false
	}
	var out []*Term
	for _, e := range es {
		out = append(out, e[0])
	}
	return out, true
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, name string, c *ssa.CallCommon, args []Val, st *State, rt types.Type) Val {
	switch name {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Slice:
			return Val{args[0][2]}
		case *types.Array:
			return Val{mkInt(u.Len())}
		case *types.Pointer:
			return Val{mkInt(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Map:
			tn := typeName(c.Args[0].Type())
			if tn != "net/http.Header" && tn != "net/url.Values" {
				pres := mkKArr(SArr(mapKeySort(u), SBool), TFalse)
				if args[0][0] != TNil {
					pres = x.mapPres(st, u, args[0][0])
				}
				if ks, ok := explicitKeys(pres); ok {
					n := mkInt(0)
					for _, k := range ks {
						n = mkAdd(n, mkIte(mkSelect(pres, k), mkInt(1), mkInt(0)))
					}
					return Val{n}
				}
				n := mkUF("card", SInt, pres)
				x.fact(TTrue, mkLe(mkInt(0), n))
				return Val{n}
			}
			n := x.freshTerm("maplen", SInt)
			x.fact(TTrue, mkLe(mkInt(0), n))
			return Val{n}
		default:
			return Val{mkPure("slen", args[0][0])}
		}
	case "append":
		return x.doAppend(c, args, st)
	case "copy":
		x.unsupported(st, "copy")
		return Val{x.freshTerm("copied", SInt)}
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		k := x.mapKey(c.Args[1].Type(), args[1])
		switch typeName(c.Args[0].Type()) {
		case "net/http.Header":
			x.headerDel(st, args[0][0], k)
		case "net/url.Values":
			x.uvDel(st, args[0][0], k)
		default:
			x.mapDel(st, m, args[0][0], k)
		}
		return nil
	case "recover":
		return Val{TNil}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0][0]
		for _, a := range args[1:] {
			lt := mkLt(a[0], r)
			if name == "max" {
				lt = mkLt(r, a[0])
			}
			r = mkIte(lt, a[0], r)
		}
		return Val{r}
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0][0], "method value")
		return args[0]
	}
	x.unsupported(st, "builtin "+name)
	if rt == nil {
		return nil
	}
	return x.fresh("builtin", rt)
}

// doAppend models append as always producing a new backing array.
func (x *Exec) doAppend(c *ssa.CallCommon, args []Val, st *State) Val {
	sl := c.Args[0].Type().Underlying().(*types.Slice)
	el := sl.Elem()
	a, b := args[0], args[1]
	x.use("append: the result does not alias a slice used later")
	if len(a) > 2 && a[2] != mkInt(0) || len(a) > 0 && a[0] != TNil {
		x.noteWrite(st, "append", a[0]) // may write behind the end of a shared slice
	}
	if isByte(el) {
		var tail *Term
		if len(b) == 1 {
			tail = b[0]
		} else {
			tail = x.bytesOf(st, b)
		}
		return x.newBytes(st, mkCat(x.bytesOf(st, a), tail))
	}
	bs, ok := x.sliceElems(st, b, el)
	if !ok {
		if a[2].op == "int" && a[2].n == 0 {
			// append(nil, xs...) is a copy
			r := x.newRef("[]" + typeName(el))
			for _, l := range leavesOfType(el) {
				ar := x.sliceArr(st, el, l, b[0])
				if b[1] != mkInt(0) {
					ar = mkUF("shift", ar.sort, ar, b[1])
				}
				x.wr(st, "E:"+typeName(el)+":"+l.path, ar.sort, r, ar)
			}
			return Val{r, mkInt(0), b[2]}
		}
		n := mkAdd(a[2], b[2])
		v := x.havocPhi(st, fmt.Sprintf("append!%d", x.nFresh), c.Args[0].Type())
		x.nFresh++
		return Val{v[0], mkInt(0), n}
	}
	r := x.newRef("[]" + typeName(el))
	for li, l := range leavesOfType(el) {
		as := SArr(SInt, l.sort)
		var ar *Term
		if a[0] == TNil || a[2] == mkInt(0) {
			ar = mkKArr(as, zeroOf(l.sort))
		} else {
			ar = x.sliceArr(st, el, l, a[0])
		}
		if a[1] != mkInt(0) && a[2] != mkInt(0) {
			ar = mkUF("shift", as, ar, a[1])
		}
		for i, e := range bs {
			ar = mkStore(ar, mkAdd(a[2], mkInt(int64(i))), e[li])
		}
		x.wr(st, "E:"+typeName(el)+":"+l.path, as, r, ar)
	}
	return Val{r, mkInt(0), mkAdd(a[2], mkInt(int64(len(bs))))}
}
