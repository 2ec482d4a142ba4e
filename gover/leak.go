package main

import (
	"fmt"
	"sort"
	"strings"
)

// Non-interference of the log: two runs that differ only in the secrets log the
// same lines. The second run is the first with every secret replaced by a fresh
// value; what a run may reveal (whether a check with the secret succeeded, and
// whether one was presented) is left as it is.

type primer struct {
	memo map[*Term]*Term
	deep map[*Term]bool
}

var secretParams = map[string]bool{"password": true, "client_secret": true}

// secretName are the term functions whose value is a secret.
func secret(t *Term) bool {
	switch t.op {
	case "const":
		if i := strings.IndexByte(t.s, '!'); i > 0 {
			n := t.s[:i]
			// results of code without a contract may depend on anything
			return !publicFresh[n] && !strings.HasPrefix(n, "var:")
		}
	case "uf":
		switch t.s {
		case "form", "postform", "query", "formlist", "postlist", "querylist":
			return t.args[0].op != "str" || secretParams[t.args[0].s]
		case "basicpass":
			return true
		case "m:bridge.Client.GetAssertionKey", "m:bridge.Client.GetIdTokenKey":
			return t.sort == SRef
		case "fmt:v", "fmt:s", "fmt:d", "fmt:q", "fmt:x", "fmttext":
			// rendering an object shows what it holds
			return true
		}
		for _, a := range t.args {
			if a.op == "uf" && (a.s == "formvals" || a.s == "postvals" || a.s == "queryvals") {
				return true
			}
		}
	case "select":
		a, k := t.args[0], t.args[1]
		if a.op == "const" && a.s == "H:F:net/url.URL.RawQuery" || a.op == "const" && a.s == "H:F:net/http.Request.RequestURI" {
			return true
		}
		if a.op == "select" && a.args[0].op == "const" && a.args[0].s == "H:HDR:v" {
			if k.op != "str" {
				return true
			}
			return k.s == "Authorization" || k.s == "Proxy-Authorization"
		}
	}
	return false
}

// publicFresh are unknown values that carry nothing about a secret beyond whether a check succeeded.
var publicFresh = map[string]bool{"jwtinner": true, "parseform": true}

// revealed are the terms that may depend on a secret.
func revealed(t *Term) bool {
	switch t.op {
	case "=":
		for i, a := range t.args {
			b := t.args[1-i]
			if secret(a) && (b == TEmpty || b == TNil) {
				return true
			}
		}
	case "uf":
		switch t.s {
		case "basicok", "basicuser", "m:bridge.Client.MatchSecret", "jwtsigok", "jwtsignok", "tag":
			return true
		}
		return strings.HasPrefix(t.s, "impl:")
	}
	return false
}

func (p *primer) prime(t *Term) *Term {
	if r := p.memo[t]; r != nil {
		return r
	}
	r := t
	switch {
	case revealed(t):
	case secret(t):
		r = mkConst(fmt.Sprintf("other%%%d", t.id), t.sort)
	case len(t.args) > 0:
		as := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			as[i] = p.prime(a)
			if as[i] != a {
				same = false
			}
		}
		if !same {
			r = rebuild(t, as)
		}
	}
	p.memo[t] = r
	return r
}

// leaks are the obligations that no log line depends on a secret.
func (r *rootRun) leaks() []*Goal {
	x := r.x
	p := &primer{memo: map[*Term]*Term{}}
	var facts []*Term
	for _, f := range x.facts {
		if g := p.prime(f); g != f && g != TTrue {
			facts = append(facts, g)
		}
	}
	// the Authorization header holds a secret only as Basic credentials
	var ts []*Term
	for t := range p.memo {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		o := p.memo[t]
		if t.op != "select" || t.args[1].op != "str" || t.args[1].s != "Authorization" || !secret(t) {
			continue
		}
		ok, ok2 := mkUF("basicok", SBool, t), mkUF("basicok", SBool, o)
		facts = append(facts, mkEq(ok, ok2), mkOr(ok, mkEq(t, o)))
		for _, a := range []*Term{t, o} {
			sp := mkStr(" ")
			facts = append(facts, mkImp(mkUF("basicok", SBool, a), mkAnd(mkLe(mkInt(2), mkUF("splitlen", SInt, a, sp)),
				mkEq(mkPure("lower", mkSelect(mkUF("splitarr", SStrArr, a, sp), mkInt(0))), mkStr("basic")))))
		}
	}
	var out []*Goal
	n := 0
	for _, e := range x.events {
		if e.name != "Log" && e.name != "Print" {
			continue
		}
		n++
		text := e.fields["text"].(*Term)
		g2, t2 := p.prime(e.guard), p.prime(text)
		goal := mkAnd(g2, mkEq(text, t2))
		if g2 == e.guard {
			goal = mkEq(text, t2)
		}
		if goal == TTrue {
			continue
		}
		out = append(out, &Goal{id: fmt.Sprintf("%s.leak%d", r.name, n), kind: "leak", what: "log line depends on a secret: " + clipS(text.Str(), 300), where: e.where,
			prem: append([]*Term{e.guard}, facts...), goal: goal, exec: x})
	}
	out = append(out, &Goal{id: r.name + ".leak", kind: "leak", what: fmt.Sprintf("%d log lines, %d free of secrets by construction", n, n-len(out)), goal: TTrue, exec: x})
	return out
}
