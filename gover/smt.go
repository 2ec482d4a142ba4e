package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/spec"
)

// query holds one satisfiability question in SMT-LIB form.
type query struct {
	text   string
	values []*Term // terms whose value is wanted from a model
	size   int
}

type answer struct {
	res     string // sat unsat unknown error
	model   map[*Term]string
	raw     string
	backend string
	dur     time.Duration
}

type emitter struct {
	b      strings.Builder
	decl   map[string]bool
	done   map[*Term]string
	ground []*Term // every ground uf term met
	strs   []*Term
	lits   []*Term
	preds  map[[2]*Term]bool
	filts  map[[3]*Term]bool
	sorts  map[string]bool
	seenB  map[*Term]bool
}

func sym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!') {
			return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
		}
	}
	return s
}

func (e *emitter) declare(n string, args []*Term, s *Sort) {
	key := n
	if e.decl[key] {
		return
	}
	e.decl[key] = true
	if len(args) == 0 {
		fmt.Fprintf(&e.b, "(declare-fun %s () %s)\n", n, s.name)
		return
	}
	var as []string
	for _, a := range args {
		as = append(as, a.sort.name)
	}
	fmt.Fprintf(&e.b, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), s.name)
}

// ufName makes overloaded function symbols unique per signature.
func ufName(t *Term) string {
	n := t.s
	if t.s == "cat" {
		return "cat"
	}
	for _, a := range t.args {
		n += "/" + a.sort.name
	}
	return sym("f:" + n + ">" + t.sort.name)
}

func intLit(n int64) string {
	if n < 0 {
		s := strconv.FormatInt(n, 10)
		return "(- " + s[1:] + ")"
	}
	return strconv.FormatInt(n, 10)
}

// expr renders t, defining shared ground nodes first.
func (e *emitter) expr(t *Term) string {
	if s, ok := e.done[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case "true", "false":
		s = t.op
	case "int":
		s = intLit(t.n)
	case "str":
		s = sym("s:" + strconv.Itoa(t.id))
		e.declare(s, nil, SStr)
		e.strs = append(e.strs, t)
	case "lit":
		s = sym("r:" + t.s)
		e.declare(s, nil, SRef)
		e.lits = append(e.lits, t)
	case "const":
		s = sym("c:" + t.s + ":" + t.sort.name)
		if strings.HasPrefix(t.s, "?") {
			return s
		}
		e.declare(s, nil, t.sort)
	default:
		as := make([]string, len(t.args))
		for i, a := range t.args {
			if t.op == "forall" && i > 0 {
				continue
			}
			as[i] = e.expr(a)
		}
		switch t.op {
		case "and", "or", "not", "=", "ite", "select", "store":
			s = "(" + t.op + " " + strings.Join(as, " ") + ")"
		case "lin":
			var ps []string
			if t.n != 0 {
				ps = append(ps, intLit(t.n))
			}
			for i := range t.args {
				if t.co[i] == 1 {
					ps = append(ps, as[i])
				} else {
					ps = append(ps, "(* "+intLit(t.co[i])+" "+as[i]+")")
				}
			}
			if len(ps) == 1 {
				s = ps[0]
			} else {
				s = "(+ " + strings.Join(ps, " ") + ")"
			}
		case "le0":
			s = "(<= " + as[0] + " 0)"
		case "karr":
			s = "((as const " + t.sort.name + ") " + as[0] + ")"
		case "arr":
			s = as[0]
			for i := 1; i < len(as); i += 2 {
				s = "(store " + s + " " + as[i] + " " + as[i+1] + ")"
			}
		case "uf":
			if t.s == "cat" {
				e.declare("cat", t.args[:2], SStr)
				s = as[len(as)-1]
				for i := len(as) - 2; i >= 0; i-- {
					s = "(cat " + as[i] + " " + s + ")"
				}
			} else {
				n := ufName(t)
				e.declare(n, t.args, t.sort)
				s = "(" + n + " " + strings.Join(as, " ") + ")"
			}
			if t.s == "pre" && !t.args[0].hasB && !t.args[1].hasB {
				e.preds[[2]*Term{t.args[0], t.args[1]}] = true
			}
			if (t.s == "filtlen" || t.s == "filtarr") && !t.hasB {
				e.filts[[3]*Term{t.args[0], t.args[1], t.args[2]}] = true
			}
			if !t.hasB {
				e.ground = append(e.ground, t)
			}
		case "forall":
			var vs []string
			for _, v := range t.args[1:] {
				vs = append(vs, "("+sym("c:"+v.s+":"+v.sort.name)+" "+v.sort.name+")")
			}
			s = "(forall (" + strings.Join(vs, " ") + ") " + as[0] + ")"
		default:
			panic("emit " + t.op)
		}
		if t.hasB {
			return s
		}
		n := "t" + strconv.Itoa(t.id)
		fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, t.sort.name, s)
		s = n
	}
	e.done[t] = s
	return s
}

func (e *emitter) assert(t *Term) {
	if t == TTrue {
		return
	}
	s := e.expr(t)
	fmt.Fprintf(&e.b, "(assert %s)\n", s)
}

// buildQuery renders the conjunction of ts plus background axioms on the ground terms.
func buildQuery(ts []*Term, values []*Term) *query {
	e := &emitter{decl: map[string]bool{}, done: map[*Term]string{}, preds: map[[2]*Term]bool{}, filts: map[[3]*Term]bool{}}
	e.b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n(declare-sort Str 0)\n(declare-sort Ref 0)\n(declare-sort Flt 0)\n")
	for _, t := range ts {
		e.assert(t)
	}
	for _, v := range values {
		e.expr(v)
	}
	e.axioms()
	e.pureAt(ts)
	e.expr(TEmpty)
	e.expr(TNil)
	if len(e.strs) > 1 {
		seen := map[string]bool{}
		var ns []string
		for _, s := range e.strs {
			n := e.done[s]
			if !seen[n] {
				seen[n] = true
				ns = append(ns, n)
			}
		}
		if len(ns) > 1 {
			fmt.Fprintf(&e.b, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	e.b.WriteString("(declare-fun refid (Ref) Int)\n")
	seen := map[*Term]bool{}
	for i, l := range e.lits {
		if !seen[l] {
			seen[l] = true
			fmt.Fprintf(&e.b, "(assert (= (refid %s) %d))\n", e.done[l], -1-i)
		}
	}
	// boxed values are not literal objects
	for _, t := range e.ground {
		if isMk(t) || isAddr(t) {
			fmt.Fprintf(&e.b, "(assert (> (refid %s) 0))\n", e.done[t])
		}
	}
	e.b.WriteString("(check-sat)\n")
	if len(values) > 0 {
		e.b.WriteString("(get-value (")
		for _, v := range values {
			e.b.WriteString(e.expr(v) + " ")
		}
		e.b.WriteString("))\n")
	}
	return &query{text: e.b.String(), values: values, size: len(e.done)}
}

// pureAt evaluates a pure function of x at the literals x is compared with.
func (e *emitter) pureAt(ts []*Term) {
	at := map[*Term][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "=" && len(t.args) == 2 && t.args[0].sort == SStr {
			a, b := t.args[0], t.args[1]
			if a.op == "str" {
				a, b = b, a
			}
			if b.op == "str" && a.op != "str" {
				at[a] = append(at[a], b)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for _, t := range append([]*Term{}, e.ground...) {
		if t.op != "uf" || spec.Pure[t.s] == nil || pureSort[t.s] == nil || t.s == "slen" {
			continue
		}
		for i, x := range t.args {
			if at[x] == nil {
				continue
			}
			for _, l := range at[x] {
				as := append([]*Term{}, t.args...)
				as[i] = l
				if v := foldPure(t.s, as); v != nil {
					e.assert(mkImp(mkEq(x, l), mkEq(t, v)))
				}
			}
		}
	}
}

// hasConn reports logical structure, which patterns must not contain.
func hasConn(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=", "le0", "forall":
		return true
	}
	for _, a := range t.args {
		if hasConn(a) {
			return true
		}
	}
	return false
}

// name gives a compound term a name, so that it can occur in patterns.
func (e *emitter) name(t *Term) *Term {
	if !hasConn(t) {
		return t
	}
	k := mkConst("!n"+strconv.Itoa(t.id), t.sort)
	e.assert(eqRaw(k, t))
	return k
}

func (e *emitter) axioms() {
	// iterate: axioms may introduce new ground terms (bounded rounds)
	doneG := map[*Term]bool{}
	doneP := map[[2]*Term]bool{}
	doneF := map[[3]*Term]bool{}
	for round := 0; round < 3; round++ {
		gs := append([]*Term{}, e.ground...)
		for _, t := range gs {
			if doneG[t] {
				continue
			}
			doneG[t] = true
			for _, a := range groundAxioms(t) {
				e.assert(a)
			}
		}
		if round == 0 {
			// the encoding of a query depends on its contents only
			var us []*Term
			for _, t := range gs {
				if t.s == "uenc" && len(t.args) == 2 && (len(us) == 0 || us[len(us)-1] != t) {
					us = append(us, t)
				}
			}
			if len(us) <= 12 {
				for i, a := range us {
					for _, b := range us[:i] {
						if a == b {
							continue
						}
						k := mkConst(fmt.Sprintf("!ue%d.%d", a.id, b.id), SStr)
						same := mkAnd(mkEq(mkSelect(a.args[0], k), mkSelect(b.args[0], k)),
							mkImp(mkSelect(a.args[0], k), mkEq(mkSelect(a.args[1], k), mkSelect(b.args[1], k))))
						e.assert(mkImp(same, mkEq(a, b)))
					}
				}
			}
		}
		if round < 2 {
			var ps [][2]*Term
			for p := range e.preds {
				if !doneP[p] {
					ps = append(ps, p)
				}
			}
			sort.Slice(ps, func(i, j int) bool {
				return ps[i][0].id < ps[j][0].id || ps[i][0] == ps[j][0] && ps[i][1].id < ps[j][1].id
			})
			for _, p := range ps {
				doneP[p] = true
				p = [2]*Term{e.name(p[0]), e.name(p[1])}
				doneP[p] = true
				x := mkConst("?px", SStr)
				i1 := mkSub(p[1], mkInt(1))
				l := mkPre(p[0], p[1], x)
				if l.op != "uf" {
					continue
				}
				r := mkAnd(mkLt(mkInt(0), p[1]), mkOr(mkPre(p[0], i1, x), mkEq(mkSelect(p[0], i1), x)))
				ls, rs := e.expr(l), e.expr(r)
				fmt.Fprintf(&e.b, "(assert (forall ((%s Str)) (! (= %s %s) :pattern (%s))))\n", sym("c:?px:Str"), ls, rs, ls)
				// elements in range are members
				iv := mkConst("?pi", SInt)
				sel := mkSelect(p[0], iv)
				m := mkPre(p[0], p[1], sel)
				if sel.op == "select" && m.op == "uf" {
					in := mkAnd(mkLe(mkInt(0), iv), mkLt(iv, p[1]))
					ss, is, ms := e.expr(sel), e.expr(in), e.expr(m)
					fmt.Fprintf(&e.b, "(assert (forall ((%s Int)) (! (=> %s %s) :pattern (%s))))\n", sym("c:?pi:Int"), is, ms, ss)
				}
			}
			var fs [][3]*Term
			for f := range e.filts {
				if !doneF[f] {
					fs = append(fs, f)
				}
			}
			sort.Slice(fs, func(i, j int) bool {
				for k := 0; k < 3; k++ {
					if fs[i][k] != fs[j][k] {
						return fs[i][k].id < fs[j][k].id
					}
				}
				return false
			})
			for _, f := range fs {
				doneF[f] = true
				a, n, x := f[0], f[1], f[2]
				n1 := mkSub(n, mkInt(1))
				fl := mkUF("filtlen", SInt, a, n, x)
				fa := mkUF("filtarr", SStrArr, a, n, x)
				fl1 := mkUF("filtlen", SInt, a, n1, x)
				fa1 := mkUF("filtarr", SStrArr, a, n1, x)
				el := mkSelect(a, n1)
				keep := mkNot(mkEq(el, x))
				pos := mkLt(mkInt(0), n)
				e.assert(mkImp(pos, mkEq(fl, mkIte(keep, mkAdd(fl1, mkInt(1)), fl1))))
				e.assert(mkImp(pos, mkEq(fa, mkIte(keep, mk("store", SStrArr, "", 0, []*Term{fa1, fl1, el}, nil), fa1))))
				e.assert(mkImp(mkNot(pos), mkAnd(mkEq(fl, mkInt(0)), mkEq(fa, mkKArr(SStrArr, TEmpty)))))
				e.assert(mkLe(mkInt(0), fl))
			}
		}
	}
}

// groundAxioms instantiates the background theory at one term.
func groundAxioms(t *Term) []*Term {
	var r []*Term
	switch {
	case t.s == "slen":
		r = append(r, mkLe0raw(mkAddN(mkInt(0), t, -1)))
		r = append(r, mkEq(mkEq(t, mkInt(0)), mkEq(t.args[0], TEmpty)))
	case t.s == "sha256":
		r = append(r, mkEq(mkPure("slen", t), mkInt(32)))
	case t.s == "sha384":
		r = append(r, mkEq(mkPure("slen", t), mkInt(48)))
	case t.s == "sha512":
		r = append(r, mkEq(mkPure("slen", t), mkInt(64)))
	case t.s == "substr":
		l := mkPure("slen", t.args[0])
		in := mkAnd(mkLe(mkInt(0), t.args[1]), mkLe(t.args[1], t.args[2]), mkLe(t.args[2], l))
		r = append(r, mkImp(in, mkEq(mkPure("slen", t), mkSub(t.args[2], t.args[1]))))
		r = append(r, mkImp(mkAnd(in, mkLt(t.args[1], t.args[2])), mkNot(mkEq(t, TEmpty))))
	case t.s == "b64":
		r = append(r, mkEq(mkEq(t, TEmpty), mkEq(t.args[1], TEmpty)))
	case t.s == "splitlen":
		r = append(r, mkLe0raw(mkAdd(mkAddN(mkInt(0), t, -1), mkInt(1))))
		if slenLit(t.args[1]) > 0 {
			r = append(r, mkEq(mkPure("contains", t.args...), mkLt(mkInt(1), t)))
			r = append(r, mkImp(mkEq(t, mkInt(1)), mkEq(mkSelect(splitArr(t.args[0], t.args[1]), mkInt(0)), t.args[0])))
		}
	case t.s == "joinarr" && t.args[0].op == "uf" && t.args[0].s == "filtarr" && len(t.args) == 4:
		// removing a word that is not there (Words.lean: remove_none)
		f, sep := t.args[0], t.args[3]
		if a, n := f.args[0], f.args[1]; a.op == "uf" && a.s == "splitarr" && a.args[1] == sep && n == splitLen(a.args[0], sep) && slenLit(sep) > 0 &&
			t.args[1] == mkInt(0) && t.args[2] == mkUF("filtlen", SInt, f.args...) {
			r = append(r, mkOr(mkPre(a, n, f.args[2]), mkEq(t, a.args[0])))
		}
	case t.s == "cutafter" && slenLit(t.args[1]) > 0:
		r = append(r, mkImp(mkEq(splitLen(t.args[0], t.args[1]), mkAdd(t.args[2], mkInt(1))),
			mkEq(t, mkSelect(splitArr(t.args[0], t.args[1]), t.args[2]))))
	case t.s == "lower":
		r = append(r, mkEq(mkEq(t, TEmpty), mkEq(t.args[0], TEmpty)))
	case t.s == "cat":
		for _, a := range t.args {
			r = append(r, mkImp(mkEq(t, TEmpty), mkEq(a, TEmpty)))
		}
		if len(t.args) == 2 {
			r = append(r, mkImp(mkAnd(mkEq(t.args[0], TEmpty), mkEq(t.args[1], TEmpty)), mkEq(t, TEmpty)))
		}
	case t.s == "hasprefix" && t.args[0].s == "cat":
		r = append(r, mkImp(mkPure("hasprefix", t.args[0].args[0], t.args[1]), t))
	case t.s == "postform":
		// FormValue prefers the body
		f := mkUF("form", SStr, t.args...)
		r = append(r, mkImp(mkNot(mkEq(t, TEmpty)), mkEq(f, t)))
	case isMk(t):
		ty := t.s[3:]
		r = append(r, mk("=", SBool, "", 0, []*Term{mk("uf", SInt, "tag", 0, []*Term{t}, nil), mkInt(typeId(ty))}, nil))
		for i, a := range t.args {
			r = append(r, mk("=", SBool, "", 0, []*Term{mk("uf", a.sort, fmt.Sprintf("un:%d:%s", i, ty), 0, []*Term{t}, nil), a}, nil))
		}
	case t.s == "tag":
		r = append(r, mkImp(eqRaw(t.args[0], TNil), mkEq(t, mkInt(-1))))
		if a := t.args[0]; a.op == "select" && a.args[0].op == "uf" && a.args[0].s == "jwtcval" {
			// claims decoded from text: JSON numbers are float64
			for _, n := range []string{"encoding/json.Number", "int", "int64"} {
				r = append(r, mkNot(mkEq(t, mkInt(typeId(n)))))
			}
		}
	case t.s == "wraps" || t.s == "wrapu":
		bits := int(t.args[1].n)
		lo, hi := wrapBounds(bits, t.s == "wraps")
		in := []*Term{mkLe(mkInt(lo), t.args[0])}
		if t.s == "wraps" || bits < 64 {
			in = append(in, mkLe(t.args[0], mkInt(hi)), mkLe(t, mkInt(hi)))
			r = append(r, in[2])
			in = in[:2]
		}
		r = append(r, mkLe(mkInt(lo), t), mkImp(mkAnd(in...), mkEq(t, t.args[0])))
	case jwtTimes[t.s] != "" && t.args[0].op != "ite" && !(t.args[0].op == "uf" && t.args[0].s == "jwtsigned"):
		// a claim of time that is there and is not a number is refused
		k := mkStr(jwtTimes[t.s])
		v := mkSelect(mkUF("jwtcval", SArr(SStr, SRef), t.args[0]), k)
		r = append(r, mkOr(t, mkNot(mkSelect(mkUF("jwtcpres", SStrSet, t.args[0]), k)), isTag(v, "float64")))
	case (t.s == "int/" || t.s == "int%") && t.args[1].op == "int" && t.args[1].n > 0:
		q, m := mkUF("int/", SInt, t.args...), mkUF("int%", SInt, t.args...)
		c := t.args[1].n
		// truncated division
		r = append(r, mkEq(t.args[0], mkAdd(mkMul(mkInt(c), q), m)),
			mkImp(mkLe(mkInt(0), t.args[0]), mkAnd(mkLe(mkInt(0), m), mkLt(m, mkInt(c)))),
			mkImp(mkLe(t.args[0], mkInt(0)), mkAnd(mkLe(m, mkInt(0)), mkLt(mkInt(-c), m))))
	case t.s == "nanos":
		u := mkMul(mkInt(1000000000), mkUF("unix", SInt, t.args[0]))
		r = append(r, mkLe(u, t), mkLe(t, mkAdd(u, mkInt(999999999))))
	case t.s == "jwtsigned":
		r = append(r, mkNot(mkEq(t, TEmpty)))
	case strings.HasPrefix(t.s, "un:"):
	}
	return r
}

// ---- running solvers ----

var (
	z3Path   = "z3-new"
	cvc5Path = "cvc5"
	solveMu  sync.Mutex
	solveDur = map[string]time.Duration{}
	solveN   = map[string]int{}
)

func runSolver(backend string, q *query, timeout time.Duration) *answer {
	if left := remaining(); left < timeout {
		if left < time.Second {
			return &answer{res: "unknown", backend: backend, raw: "time budget exhausted"}
		}
		timeout = left
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	ms := int(timeout / time.Millisecond)
	switch backend {
	case "cvc5":
		cmd = exec.CommandContext(ctx, cvc5Path, "--lang=smt2", "--arrays-exp", "--tlimit="+strconv.Itoa(ms), "-")
	default:
		cmd = exec.CommandContext(ctx, z3Path, "-in", "-smt2", "-t:"+strconv.Itoa(ms), "-memory:6000")
	}
	cmd.Stdin = strings.NewReader(q.text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	st := time.Now()
	err := cmd.Run()
	d := time.Since(st)
	solveMu.Lock()
	solveDur[backend] += d
	solveN[backend]++
	solveMu.Unlock()
	a := &answer{raw: out.String(), backend: backend, dur: d}
	for strings.HasPrefix(a.raw, "WARNING") {
		_, a.raw, _ = strings.Cut(a.raw, "\n")
	}
	first := strings.TrimSpace(strings.SplitN(a.raw, "\n", 2)[0])
	switch first {
	case "sat", "unsat", "unknown", "timeout":
		a.res = first
		if first == "timeout" {
			a.res = "unknown"
		}
	default:
		a.res = "error"
		if err != nil && a.raw == "" {
			a.raw = err.Error()
		}
		if strings.Contains(a.raw, "interrupted by timeout") || ctx.Err() != nil {
			a.res = "unknown"
		}
	}
	if (a.res == "sat" || a.res == "unknown") && len(q.values) > 0 {
		a.model = parseValues(a.raw, q.values)
	}
	return a
}

var ws = regexp.MustCompile(`\s+`)

// parseValues reads the (get-value) answer, which lists pairs in order.
func parseValues(raw string, vs []*Term) map[*Term]string {
	i := strings.Index(raw, "((")
	if i < 0 {
		return nil
	}
	s := raw[i:]
	// tokenise s-expression
	var toks []string
	for j := 0; j < len(s); {
		c := s[j]
		switch {
		case c == '(' || c == ')':
			toks = append(toks, string(c))
			j++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			j++
		case c == '|':
			k := strings.IndexByte(s[j+1:], '|')
			if k < 0 {
				return nil
			}
			toks = append(toks, s[j:j+k+2])
			j += k + 2
		default:
			k := j
			for k < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[k])) {
				k++
			}
			toks = append(toks, s[j:k])
			j = k
		}
	}
	pos := 0
	var sexp func() string
	sexp = func() string {
		if pos >= len(toks) {
			return ""
		}
		t := toks[pos]
		pos++
		if t != "(" {
			return t
		}
		var ps []string
		for pos < len(toks) && toks[pos] != ")" {
			ps = append(ps, sexp())
		}
		pos++
		return "(" + strings.Join(ps, " ") + ")"
	}
	m := map[*Term]string{}
	if len(toks) == 0 || toks[0] != "(" {
		return nil
	}
	pos = 1
	for _, v := range vs {
		if pos >= len(toks) || toks[pos] != "(" {
			break
		}
		pos++
		sexp()
		m[v] = sexp()
		if pos < len(toks) && toks[pos] == ")" {
			pos++
		}
	}
	return m
}

// jwtTimes names the claim each check on time reads.
var jwtTimes = map[string]string{"jwtexpired": "exp", "jwtiatbad": "iat", "jwtnbfbad": "nbf"}
