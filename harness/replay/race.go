package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/io"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"

	"verif.local/spec"
)

// Property C26 speaks of several requests: the same endpoint objects serve a
// few of them, one after the other and at the same time. Each must behave as if
// it were alone, and the race detector must stay quiet.

// gid is the number of the calling goroutine.
func gid() int {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.Atoi(string(f[1]))
	return n
}

// crowd hands every call to the world of the goroutine that makes it.
type crowd struct {
	mu   sync.Mutex
	byID map[int]*World
	one  *World
}

func (c *crowd) cur() *store {
	if c.one != nil {
		return &store{c.one}
	}
	return &store{c.byID[gid()]}
}

func (c *crowd) Issuer() string { return c.cur().Issuer() }
func (c *crowd) FindClientById(a string) (bridge.Client, *bridge.Error) {
	return c.cur().FindClientById(a)
}
func (c *crowd) FindAuthSessionByCode(a string) (bridge.AuthSession, *bridge.Error) {
	return c.cur().FindAuthSessionByCode(a)
}
func (c *crowd) FindActiveAuthInfoById(a int64) (bridge.AuthInfo, *bridge.Error) {
	return c.cur().FindActiveAuthInfoById(a)
}
func (c *crowd) FindAuthInfoByUserIdAndClientId(a int64, b string) (bridge.AuthInfo, *bridge.Error) {
	return c.cur().FindAuthInfoByUserIdAndClientId(a, b)
}
func (c *crowd) CreateOrUpdateAuthInfo(a int64, b, d string) (bridge.AuthInfo, *bridge.Error) {
	return c.cur().CreateOrUpdateAuthInfo(a, b, d)
}
func (c *crowd) FindOAuthTokenByAccessToken(a string) (bridge.OAuthToken, *bridge.Error) {
	return c.cur().FindOAuthTokenByAccessToken(a)
}
func (c *crowd) FindOAuthTokenByRefreshToken(a string) (bridge.OAuthToken, *bridge.Error) {
	return c.cur().FindOAuthTokenByRefreshToken(a)
}
func (c *crowd) CreateOAuthToken(a bridge.AuthInfo, b bool) (bridge.OAuthToken, *bridge.Error) {
	return c.cur().CreateOAuthToken(a, b)
}
func (c *crowd) RefreshAccessToken(a bridge.AuthInfo, b bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	return c.cur().RefreshAccessToken(a, b)
}
func (c *crowd) FindUserId(a, b string) (int64, *bridge.Error) { return c.cur().FindUserId(a, b) }
func (c *crowd) FindUserIdBySubject(a string) (int64, *bridge.Error) {
	return c.cur().FindUserIdBySubject(a)
}
func (c *crowd) CreateAuthSession(a bridge.AuthInfo, b *authorization.Session) *bridge.Error {
	return c.cur().CreateAuthSession(a, b)
}
func (c *crowd) DisableSession(a bridge.AuthSession) *bridge.Error { return c.cur().DisableSession(a) }
func (c *crowd) RecordAssertionClaims(a, b string, d, e int64) *bridge.Error {
	return c.cur().RecordAssertionClaims(a, b, d, e)
}

type mute struct{}

func (mute) Debug(a ...any)            {}
func (mute) Info(a ...any)             {}
func (mute) Warn(a ...any)             {}
func (mute) Error(a ...any)            {}
func (mute) Fatal(a ...any)            {}
func (mute) Debugf(f string, a ...any) {}
func (mute) Infof(f string, a ...any)  {}
func (mute) Warnf(f string, a ...any)  {}
func (mute) Errorf(f string, a ...any) {}
func (mute) Fatalf(f string, a ...any) {}

var started = time.Now()

// raceWorld makes the same world for the same seed.
func raceWorld(seed int64, cfg *Config) *World {
	w := newWorld(rand.New(rand.NewSource(seed)), cfg)
	off := started.Unix() - w.base.Unix()
	w.base = time.Unix(started.Unix(), int64(w.base.Nanosecond()))
	w.authTime += off
	w.plan()
	return w
}

// differ gives a request that repeats another one a store that answers differently.
func (w *World) differ() {
	if w.twin == 0 {
		return
	}
	w.rng = rand.New(rand.NewSource(w.twin))
	w.p = pick(w, 0, 0.2, 0.45)
	w.uid, w.authID = w.uid+pick(w, int64(0), 1, 2), w.authID+pick(w, int64(0), 1, 2)
	w.scope, w.sub = w.scopeList(), pick(w, w.sub, "subject2")
}

// visit is one request: joining names its world for the calling goroutine.
type visit struct{ join, call func() }

// service builds the shared objects of a root once and returns one call per world.
func service(root string, cfg *World, ws []*World) []visit {
	sdi := &crowd{byID: map[int]*World{}}
	if len(ws) == 1 {
		sdi.one = ws[0]
	}
	join := func(w *World) {
		sdi.mu.Lock()
		sdi.byID[gid()] = w
		sdi.mu.Unlock()
	}
	clock := io.TimeBuilder(func() time.Time { return time.Unix(started.Unix(), 0) })
	var eub oer.OAuthErrorURIBuilder
	if v := cfg.value(root, "errorURIOrNil", reflect.TypeOf(eub)); v.IsValid() && !v.IsNil() {
		eub = v.Interface().(oer.OAuthErrorURIBuilder)
	}
	realm := cfg.str("realm")
	method := goidc.CredentialAcceptanceMethod(cfg.rng.Intn(3))
	var serve func(w *World, rw http.ResponseWriter, r *http.Request)
	switch root {
	case "Token", "TokenDefault", "GrantCode", "GrantPassword", "GrantClient", "GrantRefresh", "GrantJWT":
		te := goidc.NewTokenEndpoint(realm)
		te.SetLogger(mute{})
		te.SetTimeBuilder(clock)
		te.SetErrorURIBuilder(eub)
		te.AcceptClientSecret(method)
		te.AcceptClientAssertion(cfg.chance(0.7))
		hs := []*grant.GrantHandler{grant.AuthorizationCode(), grant.Password(), grant.ClientCredentials(), grant.RefreshToken(), grant.JWT()}
		for _, h := range hs {
			te.Support(h)
		}
		h := te.Handler(sdi)
		only := map[string]int{"GrantCode": 0, "GrantPassword": 1, "GrantClient": 2, "GrantRefresh": 3, "GrantJWT": 4}
		serve = func(w *World, rw http.ResponseWriter, r *http.Request) {
			if i, ok := only[root]; ok {
				res, err := hs[i].Func(r, w.client, sdi, mute{}, clock())
				w.event("Outcome", map[string]any{"res": show(res), "err": show(err)})
				return
			}
			h(rw, r)
		}
	case "Protect", "ProtectScopes":
		rp := goidc.NewResourceProtector(realm)
		rp.SetLogger(mute{})
		rp.SetTimeBuilder(clock)
		rp.SetErrorURIBulder(eub)
		rp.AcceptAccessToken(method)
		scopes := cfg.value(root, "scopes", reflect.TypeOf(map[string][]string{})).Interface().(map[string][]string)
		serve = func(w *World, rw http.ResponseWriter, r *http.Request) {
			var ok bool
			if root == "Protect" {
				ok = rp.Validate(rw, r, sdi)
			} else {
				ok = rp.ValidateWithScopes(rw, r, sdi, scopes)
			}
			w.event("Outcome", map[string]any{"ok": ok, "header": hdrV(r.Header.Clone())})
		}
	case "Authorize", "Complete", "Cancel":
		policy := cfg.value(root, "policy", reflect.TypeOf(&authorization.Policy{})).Interface().(*authorization.Policy)
		ae := goidc.NewAuthorizationEndpoint(sdi, policy)
		ae.SetLogger(mute{})
		ae.SetTimeBuilder(clock)
		serve = func(w *World, rw http.ResponseWriter, r *http.Request) {
			cb := &callbacks{w: w}
			var ok bool
			switch root {
			case "Authorize":
				ok = ae.HandleRequest(rw, r, cb)
			case "Complete":
				ok = ae.CompleteRequest(rw, r, cb)
			default:
				ok = ae.CancelRequest(rw, r, cb)
			}
			w.event("Outcome", map[string]any{"ok": ok})
		}
	case "RespondSuccess", "RespondError":
		serve = func(w *World, rw http.ResponseWriter, r *http.Request) {
			h := authorization.ResponseHandlerForMode(w.str("mode"), rw, r)
			if root == "RespondSuccess" {
				h.Success(w.text(root, "uri"), map[string]string{"code": w.text(root, "code")})
			} else {
				h.Error(w.text(root, "uri"), "invalid_scope", w.text(root, "desc"), w.text(root, "state"))
			}
		}
	case "LogUse", "LogUsef":
		l := log.NewDefaultLogger()
		serve = func(w *World, rw http.ResponseWriter, r *http.Request) {
			msg := w.text(root, "msg")
			switch w.rng.Intn(6) {
			case 0:
				l.Debug(msg)
			case 1:
				l.Info(msg)
			case 2:
				l.Warnf("%s", msg)
			case 3:
				l.Error(msg)
			case 4:
				l.Fatal(msg)
			default:
				l.Debugf("%s", msg)
			}
		}
	default:
		return nil
	}
	var calls []visit
	for _, w := range ws {
		req := w.httpRequest(root)
		w.differ()
		rec := &recorder{w: w, h: http.Header{}}
		if w.odd() {
			rec.h.Set(pick(w, "Cache-Control", "Pragma", "Content-Type", "WWW-Authenticate", "X-Other"), pick(w, "no-cache", "no-store", "", "text/plain", "x"))
		}
		calls = append(calls, visit{func() { join(w) }, func() {
			defer func() {
				if p := recover(); p != nil {
					w.event("Panic", map[string]any{"value": fmt.Sprint(p)})
				}
			}()
			serve(w, rec, req)
		}})
	}
	return calls
}

var ptrRE = regexp.MustCompile(`0x[0-9a-f]+`)

func (w *World) outcome() []string {
	var r []string
	for _, e := range w.events {
		r = append(r, ptrRE.ReplaceAllString(showEv(e), "ptr"))
	}
	return r
}

var served = map[string]bool{}

// races drives one root; it reports a request that other requests disturb.
func races(cfg *Config, root string, seed int64, crowdSize int, tell func()) *Found {
	fresh := func() (*World, []*World) {
		c := raceWorld(seed, cfg)
		var ws []*World
		for i := 0; i < crowdSize; i++ {
			k := seed*31 + int64(i) + 1
			if i > 0 && k%3 == 0 {
				// the request of the one before, but the store has moved on
				w := raceWorld(k-1, cfg)
				w.twin = k
				ws = append(ws, w)
				continue
			}
			ws = append(ws, raceWorld(k, cfg))
		}
		return c, ws
	}
	alone := func(k int) []string {
		c, ws := fresh()
		cs := service(root, c, ws[k:k+1])
		if cs == nil {
			return nil
		}
		cs[0].call()
		return ws[k].outcome()
	}
	inTurn := func() [][]string {
		c, ws := fresh()
		cs := service(root, c, ws)
		if cs == nil {
			return nil
		}
		var r [][]string
		for i, f := range cs {
			f.join()
			f.call()
			r = append(r, ws[i].outcome())
		}
		return r
	}
	// some processes serve one request before anything else: the same request must not be served otherwise later
	var before []string
	first := !served[root] && seed%2 == 0
	served[root] = true
	if first {
		before = alone(crowdSize - 1)
	}
	// at the same time; first, because what is kept for good is made by the first request
	tell()
	c, ws := fresh()
	calls := service(root, c, ws)
	if calls == nil {
		return nil
	}
	var ready, wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range calls {
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			f.join()
			ready.Done()
			<-start
			f.call()
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
	// one after the other
	got := inTurn()
	if got == nil {
		return nil
	}
	if first && before != nil {
		base, same := alone(crowdSize-1), true
		for i := 0; i < 12 && same; i++ {
			same = !reflect.DeepEqual(base, before) && reflect.DeepEqual(base, alone(crowdSize-1))
		}
		if same {
			fd := &Found{Root: root, Clause: "alone", What: "a request that is served again, after others, behaves differently from the first time"}
			fd.Events = append([]string{"FIRST TIME:"}, before...)
			fd.Events = append(append(fd.Events, "LATER:"), base...)
			return fd
		}
	}
	for k := range got {
		if reflect.DeepEqual(got[k], alone(k)) {
			continue
		}
		same := true
		base := alone(k)
		for i := 0; i < 12 && same; i++ {
			same = reflect.DeepEqual(base, alone(k)) && !reflect.DeepEqual(inTurn()[k], base)
		}
		if same {
			fd := &Found{Root: root, Clause: "alone", What: fmt.Sprintf("request %d of %d behaves differently after the others than alone", k+1, crowdSize)}
			fd.Events = append([]string{"ALONE:"}, base...)
			fd.Events = append(append(fd.Events, "AFTER THE OTHERS:"), got[k]...)
			return fd
		}
	}
	return nil
}

func searchRaces(cfg *Config, set *spec.Set, seed int64, secs float64, only int, onlyRoot string) int {
	realOut := os.Stdout
	cap, err := os.CreateTemp(scratch, "out")
	if err != nil {
		return 2
	}
	os.Stdout = cap
	excl, tl := map[string]bool{}, map[string]*tally{}
	for _, e := range cfg.Exclude {
		excl[e] = true
	}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	n, reps := 0, 1
	if only >= 0 {
		reps = 200
	}
	for it := 0; time.Now().Before(end) || only >= 0; it++ {
		if only >= 0 {
			it = only
		}
		for ti, t := range cfg.Targets {
			if onlyRoot != "" && t.Root != onlyRoot {
				continue
			}
			for i := 0; i < reps; i++ {
				n++
				size := 4
				if i == 0 && it%8 == 0 {
					size = 12
				}
				fd := races(cfg, t.Root, seed*1000003+int64(it)*131+int64(ti), size, func() {
					if i == 0 {
						fmt.Fprintf(realOut, "at %s %d %d\n", t.Root, seed, it)
					}
				})
				if f := table[t.Root]; fd == nil && f != nil && i == 0 {
					fd = one(cfg, set, t, f, rand.New(rand.NewSource(seed*1000003+int64(it)*131+int64(ti))), cap, excl, tl)
				}
				if fd != nil {
					fd.Property, fd.Seed, fd.Iteration = cfg.Prop, seed, it
					out, _ := json.MarshalIndent(fd, "", " ")
					realOut.WriteString("\n" + strings.TrimSpace(string(out)) + "\n")
					return 1
				}
			}
		}
		if only >= 0 {
			break
		}
	}
	fmt.Fprintf(realOut, "runs %d\n", n)
	return 0
}
