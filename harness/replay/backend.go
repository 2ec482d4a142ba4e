package main

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"time"

	jwt "github.com/golang-jwt/jwt"

	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"

	"verif.local/spec"
)

// undef is the value of everything this evaluation cannot decide. A clause that
// evaluates to undef says nothing.
type undefT struct{}

var undef = undefT{}

// funcID names a grant handler function.
type funcID int

// jwtKeyOf is the key a token was signed with.
type jwtKeyOf struct{ tok string }

// Snap is a pointer with the fields its object had when it was seen.
type Snap struct{ ptr, copy any }

// Ev is one observed event.
type Ev struct {
	Name string
	Idx  int
	F    map[string]any
}

func (e *Ev) EvName() string      { return e.Name }
func (e *Ev) EvIndex() int        { return e.Idx }
func (e *Ev) EvGuard() spec.Value { return true }
func (e *Ev) EvField(n string) (spec.Value, error) {
	v, ok := e.F[n]
	if !ok {
		return undef, nil
	}
	return norm(v), nil
}

// hdrV reads a header snapshot.
type hdrV http.Header

// norm maps a Go value to the values of the logic.
func norm(v any) any {
	switch t := v.(type) {
	case nil, undefT, bool, int64, string, funcID, jwtKeyOf, Snap, *Ev, hdrV:
		return v
	case []byte:
		if t == nil {
			return nil
		}
		return t
	case time.Time:
		return t
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return int64(r.Uint())
	case reflect.String:
		return r.String()
	case reflect.Bool:
		return r.Bool()
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Slice, reflect.Chan:
		if r.IsNil() {
			return nil
		}
	}
	return v
}

// run is one concrete execution, as the clauses see it.
type run struct {
	w      *World
	vars   map[string]any
	events []*Ev
	reqHdr http.Header // before
	hdr2   http.Header // after
	rwHdr  http.Header
	form   *http.Request // a parsed copy of the request
	now    int64
	handID map[any]funcID
}

func (b *run) Bool(v bool) spec.Value  { return v }
func (b *run) Int(n int64) spec.Value  { return n }
func (b *run) Str(s string) spec.Value { return s }
func (b *run) Nil() spec.Value         { return nil }
func (b *run) IsConst(v spec.Value) (bool, bool) {
	x, ok := v.(bool)
	return x, ok
}
func (b *run) Not(v spec.Value) spec.Value {
	if x, ok := v.(bool); ok {
		return !x
	}
	return undef
}
func (b *run) And(x, y spec.Value) spec.Value {
	p, ok := x.(bool)
	q, ok2 := y.(bool)
	if ok && !p || ok2 && !q {
		return false
	}
	if ok && ok2 {
		return true
	}
	return undef
}
func (b *run) Or(x, y spec.Value) spec.Value { return b.Not(b.And(b.Not(x), b.Not(y))) }
func (b *run) Ite(c, x, y spec.Value) (spec.Value, error) {
	if k, ok := c.(bool); ok {
		if k {
			return x, nil
		}
		return y, nil
	}
	return undef, nil
}

func (b *run) Events() []spec.EventRef {
	var r []spec.EventRef
	for _, e := range b.events {
		r = append(r, e)
	}
	return r
}

func text(v any) (string, bool) {
	switch t := v.(type) {
	case string:
		return t, true
	case []byte:
		return string(t), true
	case nil:
		return "", false
	}
	return "", false
}

func (b *run) Bin(op string, x, y spec.Value) (spec.Value, error) {
	x, y = norm(x), norm(y)
	if x == undef || y == undef {
		return undef, nil
	}
	switch op {
	case "==":
		return equal(x, y), nil
	case "!=":
		return b.Not(equal(x, y)), nil
	case "++":
		p, ok := text(x)
		q, ok2 := text(y)
		if !ok || !ok2 {
			return undef, nil
		}
		return p + q, nil
	}
	p, ok := x.(int64)
	q, ok2 := y.(int64)
	if !ok || !ok2 {
		return undef, nil
	}
	switch op {
	case "<":
		return p < q, nil
	case "<=":
		return p <= q, nil
	case ">":
		return p > q, nil
	case ">=":
		return p >= q, nil
	case "+":
		return p + q, nil
	case "-":
		return p - q, nil
	case "*":
		return p * q, nil
	}
	return undef, nil
}

func equal(x, y any) any {
	if k, ok := x.(jwtKeyOf); ok {
		return signedWith(k.tok, y)
	}
	if k, ok := y.(jwtKeyOf); ok {
		return signedWith(k.tok, x)
	}
	if s, ok := x.(Snap); ok {
		x = s.ptr
	}
	if s, ok := y.(Snap); ok {
		y = s.ptr
	}
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	if p, ok := text(x); ok {
		if q, ok := text(y); ok {
			return p == q
		}
	}
	if p, ok := x.(*rsa.PublicKey); ok {
		if q, ok := y.(*rsa.PublicKey); ok {
			return p.Equal(q)
		}
	}
	if p, ok := x.(*rsa.PrivateKey); ok {
		if q, ok := y.(*rsa.PrivateKey); ok {
			return p.Equal(q)
		}
	}
	if reflect.TypeOf(x) != reflect.TypeOf(y) {
		return false
	}
	if reflect.TypeOf(x).Comparable() {
		return x == y
	}
	return undef
}

func (b *run) Field(v spec.Value, name string) (spec.Value, error) {
	v = norm(v)
	if v == nil || v == undef {
		return undef, nil
	}
	if s, ok := v.(Snap); ok {
		v = s.copy
	}
	if h, ok := v.(*grant.GrantHandler); ok && name == "Func" {
		if id, ok := b.handID[h]; ok {
			return id, nil
		}
	}
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Slice && name == "len" {
		return int64(r.Len()), nil
	}
	if r.Kind() == reflect.Ptr {
		r = r.Elem()
	}
	if r.Kind() != reflect.Struct {
		return undef, nil
	}
	f := r.FieldByName(name)
	if !f.IsValid() || !f.CanInterface() {
		return undef, nil
	}
	return norm(f.Interface()), nil
}

func (b *run) Method(v spec.Value, name string, args []spec.Value) (spec.Value, error) {
	if e, ok := v.(*Ev); ok {
		f, ok := e.F[name]
		if !ok {
			return undef, nil
		}
		if h, ok := f.(hdrV); ok {
			k, ok := args[0].(string)
			if !ok {
				return undef, nil
			}
			return http.Header(h).Get(k), nil
		}
		return undef, nil
	}
	v = norm(v)
	if v == nil || v == undef {
		return undef, nil
	}
	if s, ok := v.(Snap); ok {
		v = s.copy
	}
	m := reflect.ValueOf(v).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != len(args) || m.Type().NumOut() != 1 {
		return undef, nil
	}
	var in []reflect.Value
	for i, a := range args {
		c, ok := conv(norm(a), m.Type().In(i))
		if !ok {
			return undef, nil
		}
		in = append(in, c)
	}
	return norm(m.Call(in)[0].Interface()), nil
}

func conv(a any, t reflect.Type) (reflect.Value, bool) {
	switch x := a.(type) {
	case undefT:
		return reflect.Value{}, false
	case nil:
		return reflect.Zero(t), true
	case int64, string, bool:
		r := reflect.ValueOf(x)
		if r.Type().ConvertibleTo(t) && (t.Kind() == reflect.String) == (r.Kind() == reflect.String) {
			return r.Convert(t), true
		}
		return r, r.Type().AssignableTo(t)
	}
	r := reflect.ValueOf(a)
	return r, r.Type().AssignableTo(t)
}

func (b *run) Range(forall bool, kind string, lo, hi spec.Value, body func(spec.Value) (spec.Value, error)) (spec.Value, error) {
	var dom []spec.Value
	closed := false
	if kind == "int" {
		l, ok := norm(lo).(int64)
		h, ok2 := norm(hi).(int64)
		if !ok || !ok2 || h-l > 1000 {
			return undef, nil
		}
		closed = true
		for i := l; i < h; i++ {
			dom = append(dom, i)
		}
	} else {
		for _, s := range b.w.candidates() {
			dom = append(dom, s)
		}
	}
	var acc spec.Value = forall
	for _, d := range dom {
		v, err := body(d)
		if err != nil {
			return nil, err
		}
		if forall {
			acc = b.And(acc, v)
		} else {
			acc = b.Or(acc, v)
		}
		if k, ok := acc.(bool); ok && k != forall {
			return acc, nil
		}
	}
	if !closed {
		// not every string was tried
		return undef, nil
	}
	return acc, nil
}

// ---- functions of the logic ----

func strs(a []spec.Value) ([]string, bool) {
	var r []string
	for _, x := range a {
		s, ok := text(norm(x))
		if !ok {
			return nil, false
		}
		r = append(r, s)
	}
	return r, true
}

func (b *run) Call(name string, args []spec.Value) (spec.Value, error) {
	if len(args) == 0 && name != "now" {
		if v, ok := b.vars[name]; ok {
			return norm(v), nil
		}
	}
	for i := range args {
		args[i] = norm(args[i])
		if args[i] == undef {
			return undef, nil
		}
	}
	return norm(b.call(name, args)), nil
}

func (b *run) call(name string, args []spec.Value) any {
	switch name {
	case "now":
		return b.now
	case "isnil":
		return args[0] == nil
	case "get", "has", "mem":
		r := reflect.ValueOf(args[0])
		k, ok := args[1].(string)
		if args[0] == nil && name == "has" {
			return false
		}
		if !ok || args[0] == nil || r.Kind() != reflect.Map {
			return undef
		}
		e := r.MapIndex(reflect.ValueOf(k))
		if name != "get" {
			return e.IsValid()
		}
		if !e.IsValid() {
			return reflect.Zero(r.Type().Elem()).Interface()
		}
		return e.Interface()
	case "len":
		if s, ok := text(args[0]); ok {
			return int64(len(s))
		}
		if args[0] == nil {
			return int64(0)
		}
		r := reflect.ValueOf(args[0])
		if r.Kind() == reflect.Slice || r.Kind() == reflect.Map {
			return int64(r.Len())
		}
		return undef
	case "at":
		r := reflect.ValueOf(args[0])
		i, ok := args[1].(int64)
		if args[0] == nil || r.Kind() != reflect.Slice || !ok || i < 0 || i >= int64(r.Len()) {
			return undef
		}
		return r.Index(int(i)).Interface()
	case "bytes", "str":
		if args[0] == nil {
			return ""
		}
		if s, ok := text(args[0]); ok {
			return s
		}
		return undef
	case "isstr":
		_, ok := args[0].(string)
		return ok
	case "unix":
		if t, ok := args[0].(time.Time); ok {
			return t.Unix()
		}
		return undef
	case "jsonmap":
		d, err := json.Marshal(args[0])
		if err != nil {
			return undef
		}
		return string(d)
	case "sprintf":
		s, ok := strs(args)
		if !ok {
			return undef
		}
		var as []any
		for _, x := range s[1:] {
			as = append(as, x)
		}
		return fmt.Sprintf(s[0], as...)
	case "erruri":
		f, ok := args[0].(oer.OAuthErrorURIBuilder)
		n, ok2 := args[1].(int64)
		if !ok || !ok2 {
			return undef
		}
		return f(oer.OAuthErrorType(n))
	case "issigner":
		_, ok := args[0].(crypto.Signer)
		return ok
	case "pubkey":
		if s, ok := args[0].(crypto.Signer); ok {
			return s.Public()
		}
		return undef
	case "isrsapub":
		_, ok := args[0].(*rsa.PublicKey)
		return ok
	case "rsapub":
		if k, ok := args[0].(*rsa.PublicKey); ok {
			return k
		}
		return undef
	case "jwtsignok":
		alg, ok := args[0].(string)
		if !ok {
			return undef
		}
		m := jwt.GetSigningMethod(alg)
		if m == nil {
			return undef
		}
		_, err := jwt.New(m).SignedString(args[1])
		return err == nil
	case "jwtsigok":
		t, ok := args[0].(string)
		if !ok {
			return undef
		}
		return verify(t, args[1])
	case "uenc":
		v := url.Values{}
		for i := 0; i+2 < len(args); i += 3 {
			k, ok := args[i].(string)
			p, ok2 := args[i+1].(bool)
			s, ok3 := args[i+2].(string)
			if !ok || !ok2 || !ok3 {
				return undef
			}
			if p {
				v.Set(k, s)
			}
		}
		return v.Encode()
	case "uencmap":
		m, ok := args[0].(map[string]string)
		if !ok {
			return undef
		}
		v := url.Values{}
		for k, s := range m {
			v.Set(k, s)
		}
		return v.Encode()
	case "card", "iterhas", "iterget", "rowsat":
		return b.rows(name, args)
	case "intokn", "toklist", "filtarr", "filtlen", "samelist", "within", "uvhas", "uvget", "order", "seen":
		return undef
	case "tok", "split0":
		var n int64
		var l []string
		if name == "tok" {
			s, ok := args[0].(string)
			if n, _ = args[1].(int64); !ok {
				return undef
			}
			l = spec.Toks(s)
		} else {
			s, ok := strs(args[:2])
			if n, _ = args[2].(int64); !ok {
				return undef
			}
			l = strings.Split(s[0], s[1])
		}
		if n < 0 || n >= int64(len(l)) {
			return undef
		}
		return l[n]
	case "substr":
		s, ok := args[0].(string)
		i, ok2 := args[1].(int64)
		j, ok3 := args[2].(int64)
		if !ok || !ok2 || !ok3 || i < 0 || j > int64(len(s)) || i > j {
			return undef
		}
		return s[i:j]
	case "itoa":
		if _, ok := args[0].(int64); !ok {
			return undef
		}
		return spec.Pure["itoa"]([]any{args[0]})
	}
	s, ok := strs(args)
	if !ok {
		return undef
	}
	if f := strFuncs[name]; f != nil {
		return f(b, s)
	}
	if f := spec.Pure[name]; f != nil {
		var as []any
		for _, x := range s {
			as = append(as, x)
		}
		return f(as)
	}
	return undef
}

var strFuncs map[string]func(b *run, a []string) any

func init() {
	F := map[string]func(b *run, a []string) any{}
	strFuncs = F
	needForm := func(f func(r *http.Request, k string) string) func(b *run, a []string) any {
		return func(b *run, a []string) any {
			if b.form == nil {
				return undef
			}
			return f(b.form, a[0])
		}
	}
	F["form"] = needForm(func(r *http.Request, k string) string { return r.Form.Get(k) })
	F["postform"] = needForm(func(r *http.Request, k string) string { return r.PostForm.Get(k) })
	F["reqhdr"] = func(b *run, a []string) any { return b.reqHdr.Get(a[0]) }
	F["reqhdr2"] = func(b *run, a []string) any { return b.hdr2.Get(a[0]) }
	F["hdrafter"] = func(b *run, a []string) any { return b.rwHdr.Get(a[0]) }
	F["canon"] = func(b *run, a []string) any { return http.CanonicalHeaderKey(a[0]) }
	basic := func(b *run) (string, string, bool) {
		if b.form == nil {
			return "", "", false
		}
		return (&http.Request{Header: b.reqHdr}).BasicAuth()
	}
	F["basicok"] = func(b *run, a []string) any { _, _, ok := basic(b); return ok }
	F["basicuser"] = func(b *run, a []string) any { u, _, _ := basic(b); return u }
	F["basicpass"] = func(b *run, a []string) any { _, p, _ := basic(b); return p }
	F["intok"] = func(b *run, a []string) any { return spec.InTok(a[0], a[1]) }
	F["ntok"] = func(b *run, a []string) any { return int64(len(spec.Toks(a[0]))) }
	F["splitn"] = func(b *run, a []string) any { return int64(len(strings.Split(a[0], a[1]))) }
	F["sorttok"] = func(b *run, a []string) any { return spec.SortTok(a[0]) }
	F["removetok"] = func(b *run, a []string) any { return spec.RemoveTok(a[0], a[1]) }
	F["isjson"] = func(b *run, a []string) any { return json.Valid([]byte(a[0])) }
	jget := func(a []string) (any, bool) {
		var m map[string]any
		d := json.NewDecoder(strings.NewReader(a[0]))
		d.UseNumber()
		if d.Decode(&m) != nil {
			return nil, false
		}
		v, ok := m[a[1]]
		return v, ok
	}
	F["jhas"] = func(b *run, a []string) any { _, ok := jget(a); return ok }
	F["jstr"] = func(b *run, a []string) any {
		v, _ := jget(a)
		s, _ := v.(string)
		return s
	}
	F["jint"] = func(b *run, a []string) any {
		v, _ := jget(a)
		n, ok := v.(json.Number)
		if !ok {
			return int64(0)
		}
		i, err := n.Int64()
		if err != nil {
			return undef
		}
		return i
	}
	F["jwtparsed"] = func(b *run, a []string) any { t := readJWT(a[0]); return t != nil && t.meth != nil }
	F["jwtmalformed"] = func(b *run, a []string) any { return readJWT(a[0]) == nil }
	cl := func(a []string) (any, bool) {
		t := readJWT(a[0])
		if t == nil {
			return nil, false
		}
		v, ok := t.claims[a[1]]
		return v, ok
	}
	F["jwthas"] = func(b *run, a []string) any { _, ok := cl(a); return ok }
	F["jwtstr"] = func(b *run, a []string) any { v, _ := cl(a); s, _ := v.(string); return s }
	F["jwtisstr"] = func(b *run, a []string) any { v, _ := cl(a); _, ok := v.(string); return ok }
	F["jwtisnum"] = func(b *run, a []string) any { v, _ := cl(a); _, ok := v.(float64); return ok }
	F["jwtnum"] = func(b *run, a []string) any { v, _ := cl(a); f, _ := v.(float64); return int64(f) }
	F["jwthdrstr"] = func(b *run, a []string) any {
		if t := readJWT(a[0]); t != nil {
			s, _ := t.header[a[1]].(string)
			return s
		}
		return ""
	}
	F["jwthdrhas"] = func(b *run, a []string) any {
		if t := readJWT(a[0]); t != nil {
			_, ok := t.header[a[1]]
			return ok
		}
		return false
	}
	F["jwtalg"] = func(b *run, a []string) any {
		if t := readJWT(a[0]); t != nil {
			s, _ := t.header["alg"].(string)
			return s
		}
		return undef
	}
	F["jwtkey"] = func(b *run, a []string) any { return jwtKeyOf{a[0]} }
	F["jwttimeok"] = func(b *run, a []string) any {
		t := readJWT(a[0])
		if t == nil {
			return undef
		}
		return jwt.MapClaims(t.claims).Valid() == nil
	}
	F["jwtalgknown"] = func(b *run, a []string) any { return jwt.GetSigningMethod(a[0]) != nil }
	F["urlok"] = func(b *run, a []string) any { _, err := url.Parse(a[0]); return err == nil }
	F["urlquery"] = func(b *run, a []string) any {
		u, err := url.Parse(a[0])
		if err != nil {
			return undef
		}
		return u.RawQuery
	}
	F["urlfragment"] = func(b *run, a []string) any {
		u, err := url.Parse(a[0])
		if err != nil {
			return undef
		}
		return u.Fragment
	}
	blk := func(s string) *pem.Block { p, _ := pem.Decode([]byte(s)); return p }
	F["pemok"] = func(b *run, a []string) any { return blk(a[0]) != nil }
	F["pemtype"] = func(b *run, a []string) any {
		if p := blk(a[0]); p != nil {
			return p.Type
		}
		return undef
	}
	F["pembytes"] = func(b *run, a []string) any {
		if p := blk(a[0]); p != nil {
			return string(p.Bytes)
		}
		return undef
	}
	F["pkixok"] = func(b *run, a []string) any { _, err := x509.ParsePKIXPublicKey([]byte(a[0])); return err == nil }
	F["pkix"] = func(b *run, a []string) any {
		k, err := x509.ParsePKIXPublicKey([]byte(a[0]))
		if err != nil {
			return undef
		}
		return k
	}
	F["pkcs1ok"] = func(b *run, a []string) any { _, err := x509.ParsePKCS1PrivateKey([]byte(a[0])); return err == nil }
	F["pkcs1"] = func(b *run, a []string) any {
		k, err := x509.ParsePKCS1PrivateKey([]byte(a[0]))
		if err != nil {
			return undef
		}
		return k
	}
	F["fileok"] = func(b *run, a []string) any { _, err := os.ReadFile(a[0]); return err == nil }
	F["filedata"] = func(b *run, a []string) any {
		d, err := os.ReadFile(a[0])
		if err != nil {
			return undef
		}
		return string(d)
	}
}

// ---- JSON Web Tokens, read independently of the code under test ----

type jwtRead struct {
	header, claims map[string]any
	meth           jwt.SigningMethod
	signed, sig    string
}

func readJWT(s string) *jwtRead {
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return nil
	}
	dec := func(x string) map[string]any {
		d, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(x, "="))
		if err != nil {
			return nil
		}
		m := map[string]any{}
		if json.NewDecoder(bytes.NewReader(d)).Decode(&m) != nil {
			return nil
		}
		return m
	}
	t := &jwtRead{header: dec(p[0]), claims: dec(p[1]), signed: p[0] + "." + p[1], sig: p[2]}
	if t.header == nil || t.claims == nil {
		return nil
	}
	if a, ok := t.header["alg"].(string); ok {
		t.meth = jwt.GetSigningMethod(a)
	}
	return t
}

func verify(tok string, key any) any {
	t := readJWT(tok)
	if t == nil || t.meth == nil {
		return undef
	}
	return t.meth.Verify(t.signed, t.sig, key) == nil
}

// signedWith tells whether a token carries a signature made with the private or shared key.
func signedWith(tok string, key any) any {
	if s, ok := key.(crypto.Signer); ok {
		key = s.Public()
	}
	return verify(tok, key)
}
