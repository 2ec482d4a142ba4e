package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"html"
	"math/rand"
	"net/http"
	"net/http/httputil"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/io"
	"github.com/lyokato/goidc/log"

	"verif.local/spec"
)

// Target is one function to drive and the clauses to judge.
type Target struct {
	Root    string
	Params  []string
	Results []string
	Panics  bool
}

// Config comes from the verifier.
type Config struct {
	Prop      string
	Contracts string
	Targets   []Target
	Consts    []string
	Novel     []string // literals the original sources do not have
	NovelInts []int64
	Exclude   []string // root.clause
	Leaks     bool
	Races     bool
}

// Found is a violation with everything needed to see it.
type Found struct {
	Property  string   `json:"property"`
	Root      string   `json:"root"`
	Clause    string   `json:"clause"`
	Contract  string   `json:"contract,omitempty"`
	What      string   `json:"what,omitempty"`
	Seed      int64    `json:"seed"`
	Iteration int      `json:"iteration"`
	Arguments []string `json:"arguments"`
	Request   string   `json:"request,omitempty"`
	Events    []string `json:"events"`
	Results   []string `json:"results"`
	Stack     string   `json:"stack,omitempty"`
}

var scratch string

func fileWith(s string) string {
	p := filepath.Join(scratch, fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16])
	if s == "" {
		return filepath.Join(scratch, "missing")
	}
	if _, err := os.Stat(p); err != nil {
		os.WriteFile(p, []byte(s), 0o600)
	}
	return p
}

var ecDER []byte

func ecPub() []byte {
	if ecDER == nil {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		ecDER, _ = x509.MarshalPKIXPublicKey(&k.PublicKey)
	}
	return ecDER
}

func s256(s string) string {
	h := sha256.Sum256([]byte(s))
	return strings.TrimRight(base64.URLEncoding.EncodeToString(h[:]), "=")
}

func main() {
	cfgPath := flag.String("cfg", "", "configuration")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 10, "time to search")
	only := flag.Int("iter", -1, "only this iteration")
	onlyRoot := flag.String("root", "", "only this root")
	stats := flag.Bool("stats", false, "report how often each clause had a value")
	flag.Parse()
	var cfg Config
	b, err := os.ReadFile(*cfgPath)
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	set, err := spec.Load(cfg.Contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	scratch, err = os.MkdirTemp("", "replay")
	if err != nil {
		os.Exit(2)
	}
	if cfg.Races {
		code := searchRaces(&cfg, set, *seed, *secs, *only, *onlyRoot)
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	code := search(&cfg, set, *seed, *secs, *only, *onlyRoot, *stats)
	os.RemoveAll(scratch)
	os.Exit(code)
}

type tally struct{ yes, no, undef int }

func search(cfg *Config, set *spec.Set, seed int64, secs float64, only int, onlyRoot string, stats bool) int {
	realOut := os.Stdout
	cap, err := os.CreateTemp(scratch, "out")
	if err != nil {
		return 2
	}
	os.Stdout = cap
	excl := map[string]bool{}
	for _, e := range cfg.Exclude {
		excl[e] = true
	}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	tl := map[string]*tally{}
	n := 0
	for it := 0; ; it++ {
		if only >= 0 {
			it = only
		}
		for ti, t := range cfg.Targets {
			if onlyRoot != "" && t.Root != onlyRoot {
				continue
			}
			f := table[t.Root]
			if f == nil {
				continue
			}
			if it%16 == 0 && time.Now().After(end) && only < 0 {
				goto done
			}
			n++
			rng := rand.New(rand.NewSource(seed*1000003 + int64(it)*131 + int64(ti)))
			fd := one(cfg, set, t, f, rng, cap, excl, tl)
			if fd != nil {
				fd.Property, fd.Seed, fd.Iteration = cfg.Prop, seed, it
				out, _ := json.MarshalIndent(fd, "", " ")
				realOut.Write(append(out, '\n'))
				return 1
			}
		}
		if only >= 0 {
			break
		}
	}
done:
	if stats {
		var ks []string
		for k := range tl {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(realOut, "%-40s true %d false %d undecided %d\n", k, tl[k].yes, tl[k].no, tl[k].undef)
		}
	}
	fmt.Fprintf(realOut, "runs %d\n", n)
	return 0
}

// one runs a target once and judges it.
func one(cfg *Config, set *spec.Set, t Target, f any, rng *rand.Rand, stdout *os.File, excl map[string]bool, tl map[string]*tally) (found *Found) {
	w := newWorld(rng, cfg)
	w.plan()
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	b := &run{w: w, vars: map[string]any{}, handID: w.handID, now: w.base.Unix()}
	var args []reflect.Value
	var rec *recorder
	var req *http.Request
	var reqDump string
	for i := 0; i < ft.NumIn(); i++ {
		name := fmt.Sprintf("arg%d", i)
		if i < len(t.Params) {
			name = t.Params[i]
		}
		pt := ft.In(i)
		var v reflect.Value
		switch {
		case pt == reflect.TypeOf((*http.ResponseWriter)(nil)).Elem():
			rec = &recorder{w: w, h: w.presetHeader()}
			v = reflect.ValueOf(rec)
		case pt == reflect.TypeOf((*http.Request)(nil)):
			req = w.httpRequest(t.Root)
			v = reflect.ValueOf(req)
		case pt == reflect.TypeOf((*bridge.DataInterface)(nil)).Elem():
			v = reflect.ValueOf(&store{w})
		case pt == reflect.TypeOf((*bridge.Client)(nil)).Elem():
			v = reflect.ValueOf(w.client)
		case pt == reflect.TypeOf((*bridge.AuthorizationCallbacks)(nil)).Elem():
			v = reflect.ValueOf(&callbacks{w: w})
		case pt == reflect.TypeOf((*log.Logger)(nil)).Elem():
			v = reflect.ValueOf(&logger{w})
		case pt == reflect.TypeOf(io.TimeBuilder(nil)):
			base := w.base
			v = reflect.ValueOf(io.TimeBuilder(func() time.Time { return base }))
		default:
			v = w.value(t.Root, name, pt)
			if pt.Kind() == reflect.String && name != "uri" && !strings.HasPrefix(t.Root, "Respond") && w.odd() && w.chance(0.15) {
				for _, o := range args {
					if o.Type() == pt {
						v = o
					}
				}
			}
		}
		if !v.IsValid() {
			return nil // no way to make such an argument
		}
		args = append(args, v)
		b.vars[name] = v.Interface()
		b.vars[strings.TrimSuffix(name, "OrNil")] = v.Interface()
	}
	if p, ok := b.vars["policy"].(*authorization.Policy); ok {
		c := *p
		b.vars["policy"] = &c
	}
	if p, ok := b.vars["req"].(*authorization.Request); ok {
		b.vars["req"] = snap(p)
	}
	var desc []string
	for i := range args {
		if a := args[i].Interface(); a != any(req) && a != any(rec) {
			desc = append(desc, fmt.Sprintf("%s = %s", paramName(t, i), show(a)))
		}
	}
	if req != nil {
		d, _ := httputil.DumpRequest(req, false)
		var body string
		if g, err := req.GetBody(); err == nil {
			buf := new(strings.Builder)
			if rr, ok := g.(interface{ Read([]byte) (int, error) }); ok {
				p := make([]byte, 65536)
				k, _ := rr.Read(p)
				buf.Write(p[:k])
			}
			body = buf.String()
		}
		reqDump = string(d) + body
		b.form = parsedCopy(req)
		b.reqHdr = req.Header.Clone()
		snapReq := b.form.Clone(req.Context())
		u := *req.URL
		snapReq.URL = &u
		b.vars["r"] = snapReq
	}
	cs := contractsOf(set, cfg.Prop, t.Root)
	for _, c := range cs {
		for _, cl := range c.Clauses {
			if cl.Kind == "requires" {
				v, err := set.Eval(b, nil, cl.E)
				if err != nil || v != true {
					return nil
				}
			}
		}
	}
	mk := func(clause, contract, what string) *Found {
		fd := &Found{Root: t.Root, Clause: clause, Contract: contract, What: what, Arguments: desc, Request: reqDump}
		for _, e := range b.events {
			fd.Events = append(fd.Events, showEv(e))
		}
		return fd
	}
	var res []reflect.Value
	var panicked any
	var stack string
	func() {
		defer func() {
			if panicked = recover(); panicked != nil {
				stack = string(debug.Stack())
			}
		}()
		res = fv.Call(args)
	}()
	b.events = w.events
	if panicked != nil {
		if t.Panics && inRepo(stack) && !excl[t.Root+".panic"] {
			fd := mk("panic", "", fmt.Sprint("panic: ", panicked))
			fd.Stack = stack
			return fd
		}
		return nil
	}
	if st, _ := stdout.Seek(0, 1); st > 0 {
		out := make([]byte, st)
		stdout.ReadAt(out, 0)
		stdout.Truncate(0)
		stdout.Seek(0, 0)
		w.event("Print", map[string]any{"text": string(out)})
		b.events = w.events
	}
	if rec != nil {
		b.rwHdr = rec.h
	}
	if req != nil {
		b.hdr2 = req.Header
	}
	switch t.Root {
	case "Authorize", "Complete", "Cancel":
		b.events = responds(w, b.events)
	case "RespondForm", "RespondFormError":
		b.readPage()
	}
	for i, r := range res {
		v := r.Interface()
		b.vars[fmt.Sprintf("ret%d", i)] = v
		if i < len(t.Results) && t.Results[i] != "" && t.Results[i] != "_" {
			if _, ok := b.vars[t.Results[i]]; !ok {
				b.vars[t.Results[i]] = v
			}
		}
	}
	if len(res) > 0 {
		b.vars["ret"] = res[0].Interface()
	}
	finish := func(fd *Found) *Found {
		for i, r := range res {
			fd.Results = append(fd.Results, fmt.Sprintf("ret%d = %s", i, show(r.Interface())))
		}
		return fd
	}
	if cfg.Leaks {
		for _, e := range b.events {
			s, _ := e.F["text"].(string)
			if e.Name != "Log" && e.Name != "Print" {
				continue
			}
			for _, sec := range w.secrets {
				if len(sec) >= 9 && (strings.HasPrefix(sec, "SecretOfClient") || strings.HasPrefix(sec, "PasswordOfUser") || b64like(sec)) && leaks(s, sec) && !w.public(b, sec) {
					return finish(mk("leak", "", "log line reveals the secret "+sec+": "+s))
				}
			}
		}
	}
	for _, c := range cs {
		for _, cl := range c.Clauses {
			id := c.Root + "." + cl.Name
			if excl[id] || excl[c.Root] {
				continue
			}
			var v any
			var err error
			txt := ""
			switch cl.Kind {
			case "clause", "ensures":
				txt = cl.E.String()
				v, err = judge(set, b, cl.E)
			case "returns":
				v = true
				for i, e := range cl.Es {
					x, er := judge(set, b, e)
					if er != nil || x == undef || i >= len(res) {
						v = undef
						break
					}
					q, _ := b.Bin("==", b.vars[fmt.Sprintf("ret%d", i)], x)
					if q != true {
						v, txt = q, e.String()
						break
					}
				}
			default:
				continue
			}
			if err != nil {
				v = undef
				if os.Getenv("REPLAY_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, id, err)
				}
			}
			k := tl[id]
			if k == nil {
				k = &tally{}
				tl[id] = k
			}
			switch v {
			case true:
				k.yes++
			case false:
				k.no++
				return finish(mk(cl.Name, txt, ""))
			default:
				k.undef++
				if d := os.Getenv("REPLAY_DEBUG"); d == id {
					out, _ := json.Marshal(finish(mk(cl.Name, txt, "undecided")))
					fmt.Fprintln(os.Stderr, string(out))
				}
			}
		}
	}
	return nil
}

func judge(set *spec.Set, b *run, e *spec.Expr) (v any, err error) {
	defer func() {
		if r := recover(); r != nil {
			v, err = undef, fmt.Errorf("%v", r)
		}
	}()
	return set.Eval(b, nil, e)
}

// b64like recognises encoded Basic credentials built around one of the harness's secrets.
func b64like(s string) bool {
	for _, e := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding} {
		if d, err := e.DecodeString(s); err == nil {
			return strings.Contains(string(d), "SecretOfClient") || strings.Contains(string(d), "PasswordOfUser")
		}
	}
	return false
}

// leaks looks for a secret in a text, plainly, in part, or encoded.
func leaks(s, sec string) bool {
	if strings.Contains(s, sec) || strings.Contains(s, url.QueryEscape(sec)) {
		return true
	}
	if len(sec) > 12 && !b64like(sec) {
		return strings.Contains(s, base64.StdEncoding.EncodeToString([]byte(sec))[:12])
	}
	return strings.Contains(s, base64.StdEncoding.EncodeToString([]byte(sec)))
}

// public tells whether a would-be secret was also sent where secrets do not belong.
func (w *World) public(b *run, sec string) bool {
	if b.form == nil {
		return false
	}
	for k, vs := range b.form.Form {
		for _, v := range vs {
			if k != "password" && k != "client_secret" && strings.Contains(v, sec) {
				return true
			}
		}
	}
	return false
}

func contractsOf(set *spec.Set, prop, root string) []*spec.Contract {
	var r []*spec.Contract
	for _, c := range set.Contracts {
		if c.Root != root {
			continue
		}
		for _, p := range c.Props {
			if p == prop {
				r = append(r, c)
			}
		}
	}
	if len(r) == 0 { // a callee's contract, proved with the property
		for _, c := range set.Contracts {
			if c.Root == root && c.IsFunc {
				r = append(r, c)
			}
		}
	}
	return r
}

func paramName(t Target, i int) string {
	if i < len(t.Params) {
		return t.Params[i]
	}
	return fmt.Sprintf("arg%d", i)
}

func inRepo(stack string) bool {
	// the frame that panicked, after the runtime's own
	i := strings.Index(stack, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.Contains(l, "zz_verif") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.Contains(l, "github.com/lyokato/goidc") {
			return true
		}
	}
	return false
}

// ---- front-channel responses ----

var rowRE = regexp.MustCompile(`<input type="hidden" name="([^"]*)" value="([^"]*)"`)
var actionRE = regexp.MustCompile(`<form method="post" action="([^"]*)"`)

// responds turns redirects and form pages into Respond events.
func responds(w *World, evs []*Ev) []*Ev {
	known := append([]string{}, w.uris...)
	for _, e := range evs {
		if e.Name == "Continue" {
			if s, ok := e.F["res"].(Snap); ok {
				known = append(known, s.copy.(*authorization.Request).RedirectURI)
			}
		}
	}
	var out []*Ev
	var page *Ev
	for _, e := range evs {
		switch e.Name {
		case "Redirect":
			n := &Ev{Name: "Respond", Idx: e.Idx, F: map[string]any{}}
			loc := e.F["url"].(string)
			uri, mode, rest := loc, "query", ""
			best := -1
			for _, u := range known {
				if len(u) <= best || !strings.HasPrefix(loc, u) || u == "" {
					continue
				}
				r := loc[len(u):]
				q := "?"
				if p, err := url.Parse(u); err == nil && p.RawQuery != "" {
					q = "&"
				}
				if strings.HasPrefix(r, q) {
					best, uri, mode, rest = len(u), u, "query", r[1:]
				} else if strings.HasPrefix(r, "#") {
					best, uri, mode, rest = len(u), u, "fragment", r[1:]
				}
			}
			if best < 0 {
				if i := strings.IndexAny(loc, "?#"); i >= 0 {
					uri, rest = loc[:i], loc[i+1:]
				}
			}
			vs, _ := url.ParseQuery(rest)
			fill(n, uri, mode, vs)
			out = append(out, n)
		case "WriteHeader":
			if e.F["code"] == 200 {
				page = e
				out = append(out, e)
				continue
			}
			out = append(out, e)
		case "Write":
			b := string(e.F["body"].([]byte))
			if m := actionRE.FindStringSubmatch(b); m != nil && page != nil {
				page.Name = "Respond"
				vs := url.Values{}
				for _, r := range rowRE.FindAllStringSubmatch(b, -1) {
					vs.Add(html.UnescapeString(r[1]), html.UnescapeString(r[2]))
				}
				page.F = map[string]any{}
				fill(page, html.UnescapeString(m[1]), "form_post", vs)
				continue
			}
			out = append(out, e)
		default:
			out = append(out, e)
		}
	}
	return out
}

func fill(e *Ev, uri, mode string, vs url.Values) {
	p := map[string]string{}
	for k, v := range vs {
		p[k] = v[0]
	}
	e.F["uri"], e.F["mode"], e.F["params"] = uri, mode, p
	e.F["kind"] = "Success"
	e.F["error"], e.F["desc"], e.F["state"] = "", "", ""
	if vs.Has("error") {
		e.F["kind"] = "Error"
		e.F["error"], e.F["desc"], e.F["state"] = p["error"], p["error_description"], p["state"]
		delete(e.F, "params")
	}
}

type pageRows struct {
	keys []string
	val  map[string]string
}

var pages = map[*run]*pageRows{}

func (b *run) readPage() {
	p := &pageRows{val: map[string]string{}}
	for _, e := range b.events {
		if e.Name != "Write" {
			continue
		}
		for _, r := range rowRE.FindAllStringSubmatch(string(e.F["body"].([]byte)), -1) {
			k := html.UnescapeString(r[1])
			if _, ok := p.val[k]; !ok {
				p.keys = append(p.keys, k)
			}
			p.val[k] = html.UnescapeString(r[2])
		}
	}
	clear(pages)
	pages[b] = p
}

func (b *run) rows(name string, a []spec.Value) any {
	p := pages[b]
	if p == nil {
		return undef
	}
	switch name {
	case "card":
		return int64(len(p.keys))
	case "iterhas", "iterget":
		k, ok := a[0].(string)
		if !ok {
			return undef
		}
		if name == "iterhas" {
			_, ok := p.val[k]
			return ok
		}
		if v, ok := p.val[k]; ok {
			return v
		}
		return undef
	}
	n, ok := a[0].(int64)
	s, ok2 := strs(a[1:])
	if !ok || !ok2 || n > int64(len(p.keys)) || n < 0 {
		return undef
	}
	r := ""
	for _, k := range p.keys[:n] {
		r += s[0] + html.EscapeString(k) + s[1] + html.EscapeString(p.val[k]) + s[2]
	}
	return r
}

// ---- showing values ----

func show(v any) string {
	switch t := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", t)
	case []byte:
		return fmt.Sprintf("%q", t)
	case *store:
		return fmt.Sprintf("store with issuer %q", t.w.issuer)
	case *client:
		return fmt.Sprintf("client %q, owner %d, alg %q, key id %q, policies %d %d", t.id, t.owner, t.alg, t.kid, t.none, t.consent)
	case *callbacks:
		return "callbacks"
	case *logger:
		return "logger"
	case Snap:
		return show(t.copy)
	case error:
		if reflect.ValueOf(v).Kind() == reflect.Ptr && reflect.ValueOf(v).IsNil() {
			return "nil"
		}
		return t.Error()
	case *bridge.Error:
		if t == nil {
			return "nil"
		}
		return fmt.Sprintf("bridge error of type %d", t.Type())
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Func:
		return "function"
	case reflect.Ptr:
		if r.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("&%+v", r.Elem().Interface())
	}
	return fmt.Sprintf("%+v", v)
}

func showEv(e *Ev) string {
	var ks []string
	for k := range e.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := e.Name
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%s", k, show(e.F[k]))
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}
