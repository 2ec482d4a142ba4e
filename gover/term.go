package main

import (
	"fmt"
	"sort"
	"strings"
)

// Sort of a term.
type Sort struct {
	name string
	k, v *Sort // arrays
}

var (
	SBool = &Sort{name: "Bool"}
	SInt  = &Sort{name: "Int"}
	SStr  = &Sort{name: "Str"}
	SRef  = &Sort{name: "Ref"}
	SFlt  = &Sort{name: "Flt"}
)

var arrSorts = map[[2]*Sort]*Sort{}

func SArr(k, v *Sort) *Sort {
	key := [2]*Sort{k, v}
	if s := arrSorts[key]; s != nil {
		return s
	}
	s := &Sort{name: "(Array " + k.name + " " + v.name + ")", k: k, v: v}
	arrSorts[key] = s
	return s
}

// Term is a hash-consed logical term.
//
// ops: true false int str const(free or bound variable) lit(alloc/nil: pairwise
// distinct references) uf and or not = ite lin le0 select store karr(constant
// array) arr(base + explicit literal entries) forall
type Term struct {
	id   int
	op   string
	sort *Sort
	s    string
	n    int64
	args []*Term
	co   []int64        // lin coefficients
	hasB bool           // has free occurrences of bound variables
	fb   map[*Term]bool // which
}

type hkey struct {
	op, s string
	sort  *Sort
	n     int64
	args  string
}

var (
	terms    = map[hkey]*Term{}
	termList []*Term
)

func argKey(as []*Term, co []int64) string {
	b := make([]byte, 0, len(as)*5)
	for _, a := range as {
		x := a.id
		b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	for _, c := range co {
		for i := 0; i < 8; i++ {
			b = append(b, byte(c>>(8*i)))
		}
	}
	return string(b)
}

func mk(op string, srt *Sort, s string, n int64, args []*Term, co []int64) *Term {
	k := hkey{op, s, srt, n, argKey(args, co)}
	if t := terms[k]; t != nil {
		return t
	}
	t := &Term{id: len(termList) + 1, op: op, sort: srt, s: s, n: n, args: args, co: co}
	for _, a := range args {
		for v := range a.fb {
			if t.fb == nil {
				t.fb = map[*Term]bool{}
			}
			t.fb[v] = true
		}
	}
	if op == "forall" {
		for _, v := range args[1:] {
			delete(t.fb, v)
		}
	}
	if op == "const" && strings.HasPrefix(s, "?") {
		t.fb = map[*Term]bool{t: true}
	}
	t.hasB = len(t.fb) > 0
	terms[k] = t
	termList = append(termList, t)
	return t
}

var (
	TTrue  = mk("true", SBool, "", 0, nil, nil)
	TFalse = mk("false", SBool, "", 0, nil, nil)
	TNil   = mk("lit", SRef, "nil", 0, nil, nil)
	TEmpty = mk("str", SStr, "", 0, nil, nil)
)

func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func mkInt(n int64) *Term             { return mk("int", SInt, "", n, nil, nil) }
func mkStr(s string) *Term            { return mk("str", SStr, s, 0, nil, nil) }
func mkConst(n string, s *Sort) *Term { return mk("const", s, n, 0, nil, nil) }
func mkLit(n string) *Term            { return mk("lit", SRef, n, 0, nil, nil) }
func (t *Term) isLit() bool           { return t.op == "lit" }
func (t *Term) isConst() bool         { return t == TTrue || t == TFalse }
func isLiteral(t *Term) bool          { return t.op == "lit" || t.op == "str" || t.op == "int" }
func isAllocLit(t *Term) bool         { return t.op == "lit" && t != TNil }
func zeroOf(s *Sort) *Term {
	switch s {
	case SBool:
		return TFalse
	case SInt:
		return mkInt(0)
	case SStr:
		return TEmpty
	case SRef:
		return TNil
	case SFlt:
		return mkConst("flt0", SFlt)
	}
	return mkKArr(s, zeroOf(s.v))
}

// ---- boolean ----

func mkNot(a *Term) *Term {
	switch {
	case a == TTrue:
		return TFalse
	case a == TFalse:
		return TTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", SBool, "", 0, []*Term{a}, nil)
}

// conj lists the conjuncts of a term.
func conj(a *Term) []*Term {
	if a.op == "and" {
		return a.args
	}
	if a == TTrue {
		return nil
	}
	return []*Term{a}
}

func mkAnd(as ...*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	for _, a := range as {
		if a == TFalse {
			return TFalse
		}
		for _, c := range conj(a) {
			if !set[c] {
				set[c] = true
				out = append(out, c)
			}
		}
	}
	for _, c := range out {
		if c.op == "not" && set[c.args[0]] {
			return TFalse
		}
		// not (a and b) with a, b both present
	}
	// propagate equalities x = lit against x = lit' (distinct literals)
	var eqv map[*Term]*Term
	for _, c := range out {
		if x, l := eqLit(c); x != nil {
			if eqv == nil {
				eqv = map[*Term]*Term{}
			}
			if o := eqv[x]; o != nil && o != l {
				return TFalse
			}
			eqv[x] = l
		}
	}
	if eqv != nil {
		// drop x != l' when x = l is known
		keep := out[:0:0]
		for _, c := range out {
			if c.op == "not" {
				if x, l := eqLit(c.args[0]); x != nil {
					if o := eqv[x]; o != nil && o != l {
						continue
					}
				}
			}
			keep = append(keep, c)
		}
		out = keep
	}
	// unit propagation into disjunctions
	changed := false
	for i, c := range out {
		if c.op == "or" {
			var rest []*Term
			sat := false
			for _, d := range c.args {
				if set[d] {
					sat = true
					break
				}
				neg := false
				if d.op == "not" {
					neg = set[d.args[0]]
				} else {
					neg = set[mkNot(d)]
				}
				if !neg {
					rest = append(rest, d)
				}
			}
			if sat {
				out[i] = TTrue
				changed = true
			} else if len(rest) < len(c.args) {
				out[i] = mkOr(rest...)
				changed = true
			}
		}
	}
	if changed {
		return mkAnd(out...)
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("and", SBool, "", 0, out, nil)
}

// eqLit recognises x = literal.
func eqLit(c *Term) (*Term, *Term) {
	if c.op == "=" {
		if isLiteral(c.args[1]) {
			return c.args[0], c.args[1]
		}
		if isLiteral(c.args[0]) {
			return c.args[1], c.args[0]
		}
	}
	return nil, nil
}

func mkOr(as ...*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == TTrue {
			return true
		}
		if a == TFalse {
			return false
		}
		if a.op == "or" {
			for _, d := range a.args {
				if add(d) {
					return true
				}
			}
			return false
		}
		if !set[a] {
			set[a] = true
			out = append(out, a)
		}
		return false
	}
	for _, a := range as {
		if add(a) {
			return TTrue
		}
	}
	for _, c := range out {
		if c.op == "not" && set[c.args[0]] {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	// (A & c) | (A & !c) = A, repeatedly
	if len(out) <= 40 {
		for again := true; again; {
			again = false
		loop:
			for i := 0; i < len(out); i++ {
				for j := i + 1; j < len(out); j++ {
					if m := resolve(out[i], out[j]); m != nil {
						var n []*Term
						for k, o := range out {
							if k != i && k != j {
								n = append(n, o)
							}
						}
						n = append(n, m)
						out = n
						again = true
						break loop
					}
				}
			}
		}
		if len(out) == 1 {
			return out[0]
		}
		for _, o := range out {
			if o == TTrue {
				return TTrue
			}
		}
	}
	// factor common conjuncts
	common := map[*Term]int{}
	for _, o := range out {
		for _, c := range conj(o) {
			common[c]++
		}
	}
	var cs []*Term
	for c, n := range common {
		if n == len(out) {
			cs = append(cs, c)
		}
	}
	if len(cs) > 0 {
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		isC := map[*Term]bool{}
		for _, c := range cs {
			isC[c] = true
		}
		var rest []*Term
		for _, o := range out {
			var r []*Term
			for _, c := range conj(o) {
				if !isC[c] {
					r = append(r, c)
				}
			}
			rest = append(rest, mkAnd(r...))
		}
		return mkAnd(append(cs, mkOr(rest...))...)
	}
	// absorption: drop a disjunct implied to be redundant by literal complement
	seen := map[*Term]bool{}
	var fin []*Term
	var addf func(o *Term)
	addf = func(o *Term) {
		if o.op == "or" {
			for _, a := range o.args {
				addf(a)
			}
			return
		}
		if !seen[o] {
			seen[o] = true
			fin = append(fin, o)
		}
	}
	for _, o := range out {
		addf(o)
	}
	sort.Slice(fin, func(i, j int) bool { return fin[i].id < fin[j].id })
	if len(fin) == 1 {
		return fin[0]
	}
	return mk("or", SBool, "", 0, fin, nil)
}

// resolve merges (A&c)|(A&!c) to A and c|(A&!c) to c|A-style absorption when one
// side subsumes the other; nil when nothing applies.
func resolve(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	ina := map[*Term]bool{}
	for _, x := range ca {
		ina[x] = true
	}
	var onlyB []*Term
	nc := 0
	for _, x := range cb {
		if ina[x] {
			nc++
		} else {
			onlyB = append(onlyB, x)
		}
	}
	if len(onlyB) == 0 {
		return b // b is weaker: a implies b
	}
	if nc == len(ca) {
		return a
	}
	inb := map[*Term]bool{}
	for _, x := range cb {
		inb[x] = true
	}
	var onlyA []*Term
	for _, x := range ca {
		if !inb[x] {
			onlyA = append(onlyA, x)
		}
	}
	var common []*Term
	for _, x := range ca {
		if inb[x] {
			common = append(common, x)
		}
	}
	ra, rb := onlyA, onlyB
	// complementary remainders: ra == not rb
	if mkAnd(ra...) == mkNot(mkAnd(rb...)) || mkNot(mkAnd(ra...)) == mkAnd(rb...) {
		return mkAnd(common...)
	}
	// remainders x and (not x & y)  ->  x | y
	if len(ra) == 1 {
		nx := mkNot(ra[0])
		for i, y := range rb {
			if y == nx {
				rest := append(append([]*Term{}, rb[:i]...), rb[i+1:]...)
				return mkAnd(append(append([]*Term{}, common...), mkOrRaw(ra[0], mkAnd(rest...)))...)
			}
		}
	}
	if len(rb) == 1 {
		nx := mkNot(rb[0])
		for i, y := range ra {
			if y == nx {
				rest := append(append([]*Term{}, ra[:i]...), ra[i+1:]...)
				return mkAnd(append(append([]*Term{}, common...), mkOrRaw(rb[0], mkAnd(rest...)))...)
			}
		}
	}
	return nil
}

func mkOrRaw(as ...*Term) *Term { return mkOr(as...) }

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

// ---- ite ----

func mkIte(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort.name, b.sort.name, a.Str(), b.Str()))
	}
	if a.sort == SBool {
		switch {
		case a == TTrue && b == TFalse:
			return c
		case a == TFalse && b == TTrue:
			return mkNot(c)
		case a == TTrue:
			return mkOr(c, b)
		case a == TFalse:
			return mkAnd(mkNot(c), b)
		case b == TTrue:
			return mkOr(mkNot(c), a)
		case b == TFalse:
			return mkAnd(c, a)
		}
		// Boolean ite kept as a term
	}
	if a.op == "ite" && a.args[0] == c {
		return mkIte(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return mkIte(c, a, b.args[2])
	}
	if a.sort.k != nil {
		if m := mergeArr(c, a, b); m != nil {
			return m
		}
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == "ite" && b.args[1] == a {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2])
	}
	return mk("ite", a.sort, "", 0, []*Term{c, a, b}, nil)
}

func iteLeaves(t *Term, n int) int {
	if n <= 0 {
		return 0
	}
	if t.op == "ite" {
		l := iteLeaves(t.args[1], n)
		return l + iteLeaves(t.args[2], n-l)
	}
	return 1
}

// leaves enumerates (guard, leaf) pairs of an ite tree.
type leaf struct{ g, t *Term }

func leavesOf(t *Term) []leaf {
	var out []leaf
	seen := map[*Term]int{}
	var walk func(g, t *Term)
	walk = func(g, t *Term) {
		if g == TFalse {
			return
		}
		if t.op == "ite" {
			walk(mkAnd(g, t.args[0]), t.args[1])
			walk(mkAnd(g, mkNot(t.args[0])), t.args[2])
			return
		}
		if i, ok := seen[t]; ok {
			out[i].g = mkOr(out[i].g, g)
			return
		}
		seen[t] = len(out)
		out = append(out, leaf{g, t})
	}
	walk(TTrue, t)
	return out
}

// ---- equality ----

// distinctRefs reports references known to be different by construction.
func distinctRefs(a, b *Term) bool {
	if a.op == "lit" && b.op == "lit" {
		return a != b
	}
	ma, mb := isMk(a), isMk(b)
	if ma && mb {
		return a.s != b.s
	}
	if ma && b.op == "lit" || mb && a.op == "lit" {
		return true
	}
	fa, fb := isAddr(a), isAddr(b)
	if fa && (b.op == "lit") || fb && a.op == "lit" {
		return true
	}
	// an object allocated by the code under proof differs from every object
	// that the environment hands in
	if a == TNil && nonNil[b] || b == TNil && nonNil[a] {
		return true
	}
	if isAllocLit(a) && isOpaque(b) || isAllocLit(b) && isOpaque(a) {
		return true
	}
	// the response's header map is not one of the maps of the request
	w := func(t *Term) bool { return t.op == "uf" && t.s == "whdr" }
	h := func(t *Term) bool {
		return t.op == "select" && t.args[0].op == "const" && strings.HasPrefix(t.args[0].s, "H:F:net/")
	}
	if w(a) && h(b) || w(b) && h(a) {
		return true
	}
	return false
}

func isMk(t *Term) bool { return t.op == "uf" && strings.HasPrefix(t.s, "mk:") }
func isAddr(t *Term) bool {
	return t.op == "uf" && (strings.HasPrefix(t.s, "faddr:") || strings.HasPrefix(t.s, "eaddr:"))
}
func isOpaque(t *Term) bool {
	switch t.op {
	case "const", "select", "uf":
		return !isAddr(t)
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort.name, b.sort.name, a.Str(), b.Str()))
	}
	switch a.sort {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b == TTrue {
			return a
		}
		if b == TFalse {
			return mkNot(a)
		}
		if a == mkNot(b) {
			return TFalse
		}
	case SInt:
		if a.op == "int" && b.op == "int" {
			return mkBool(a.n == b.n)
		}
		if a.op == "uf" && a.s == "slen" && b.op == "int" && b.n == 0 {
			return mkEq(a.args[0], TEmpty)
		}
		if b.op == "uf" && b.s == "slen" && a.op == "int" && a.n == 0 {
			return mkEq(b.args[0], TEmpty)
		}
		if a.op == "ite" && b.op == "int" {
			return iteEq(a, b)
		}
		if b.op == "ite" && a.op == "int" {
			return iteEq(b, a)
		}
		d := mkSub(a, b)
		if d.op == "int" {
			return mkBool(d.n == 0)
		}
		if b.op != "int" && a.op != "int" {
			// canonical x = y or lin = const
			c, ts, co := linParts(d)
			if len(ts) == 1 && (co[0] == 1 || co[0] == -1) {
				return eqRaw(ts[0], mkInt(-c*co[0]))
			}
		}
	case SStr:
		if a.op == "str" && b.op == "str" {
			return mkBool(a.s == b.s)
		}
		if a.op == "ite" && b.op == "str" {
			return iteEq(a, b)
		}
		if b.op == "ite" && a.op == "str" {
			return iteEq(b, a)
		}
		if r := strEqSimp(a, b); r != nil {
			return r
		}
	case SRef:
		if distinctRefs(a, b) {
			return TFalse
		}
		if isMk(a) && isMk(b) && a.s == b.s {
			r := TTrue
			for i := range a.args {
				r = mkAnd(r, mkEq(a.args[i], b.args[i]))
			}
			return r
		}
		if a.op == "ite" && (b.op == "lit" || isMk(b)) {
			return iteEq(a, b)
		}
		if b.op == "ite" && (a.op == "lit" || isMk(a)) {
			return iteEq(b, a)
		}
	}
	return eqRaw(a, b)
}

func eqRaw(a, b *Term) *Term {
	if a.id > b.id && !isLiteral(b) || isLiteral(a) {
		a, b = b, a
	}
	return mk("=", SBool, "", 0, []*Term{a, b}, nil)
}

func iteEq(t, l *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if t.op != "ite" {
			return mkEq(t, l)
		}
		if r := memo[t]; r != nil {
			return r
		}
		r := mkIte(t.args[0], f(t.args[1]), f(t.args[2]))
		memo[t] = r
		return r
	}
	return f(t)
}

// ---- linear integer arithmetic ----

func linParts(t *Term) (int64, []*Term, []int64) {
	switch t.op {
	case "int":
		return t.n, nil, nil
	case "lin":
		return t.n, t.args, t.co
	}
	return 0, []*Term{t}, []int64{1}
}

func mkLin(c int64, ts []*Term, co []int64) *Term {
	m := map[*Term]int64{}
	for i, t := range ts {
		m[t] += co[i]
	}
	var k []*Term
	for t, n := range m {
		if n != 0 {
			k = append(k, t)
		}
	}
	sort.Slice(k, func(i, j int) bool { return k[i].id < k[j].id })
	if len(k) == 0 {
		return mkInt(c)
	}
	if len(k) == 1 && c == 0 && m[k[0]] == 1 {
		return k[0]
	}
	cs := make([]int64, len(k))
	for i, t := range k {
		cs[i] = m[t]
	}
	return mk("lin", SInt, "", c, k, cs)
}

func mkAddN(a, b *Term, f int64) *Term {
	c1, t1, k1 := linParts(a)
	c2, t2, k2 := linParts(b)
	ts := append(append([]*Term{}, t1...), t2...)
	co := append([]int64{}, k1...)
	for _, k := range k2 {
		co = append(co, k*f)
	}
	return mkLin(c1+c2*f, ts, co)
}
func mkAdd(a, b *Term) *Term { return mkAddN(a, b, 1) }
func mkSub(a, b *Term) *Term { return mkAddN(a, b, -1) }
func mkMul(a, b *Term) *Term {
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		return mkAddN(mkInt(0), b, a.n)
	}
	return mkUF("mul", SInt, a, b)
}

// mkLe0 is t <= 0.
func mkLe0(t *Term) *Term {
	if t.op == "int" {
		return mkBool(t.n <= 0)
	}
	if t.op == "ite" && iteLeaves(t, 9) < 9 {
		return mkIte(t.args[0], mkLe0(t.args[1]), mkLe0(t.args[2]))
	}
	if t.op == "lin" && len(t.args) == 1 && t.args[0].op == "ite" && iteLeaves(t.args[0], 9) < 9 {
		i := t.args[0]
		f := func(x *Term) *Term { return mkLe0(mkAdd(mkInt(t.n), mkMul(mkInt(t.co[0]), x))) }
		return mkIte(i.args[0], f(i.args[1]), f(i.args[2]))
	}
	c, ts, co := linParts(t)
	if len(ts) == 1 && nonNeg(ts[0]) {
		// x>=m: decide trivially true/false bounds
		m := int64(0)
		if ts[0].s == "splitlen" && ts[0].args[1].op == "str" && ts[0].args[1].s != "" {
			m = 1
		}
		if co[0] > 0 && c+co[0]*m > 0 {
			return TFalse
		}
		if co[0] < 0 && c+co[0]*m <= 0 {
			return TTrue
		}
	}
	// canonical polarity: first coefficient positive, else negate: t<=0 <=> !( -t+1 <= 0 )
	if co[0] < 0 {
		return mkNot(mkLe0raw(mkAdd(mkAddN(mkInt(0), t, -1), mkInt(1))))
	}
	return mkLe0raw(t)
}
func mkLe0raw(t *Term) *Term {
	if t.op == "uf" && t.s == "slen" {
		return mkEq(t.args[0], TEmpty)
	}
	return mk("le0", SBool, "", 0, []*Term{t}, nil)
}

func nonNeg(t *Term) bool {
	return t.op == "uf" && (t.s == "slen" || t.s == "splitlen" || t.s == "filtlen")
}

func mkLe(a, b *Term) *Term { return mkLe0(mkSub(a, b)) }
func mkLt(a, b *Term) *Term { return mkLe0(mkAdd(mkSub(a, b), mkInt(1))) }

// ---- arrays ----

func mkKArr(s *Sort, v *Term) *Term { return mk("karr", s, "", 0, []*Term{v}, nil) }

// arr terms: args = base, k1, v1, k2, v2... with literal keys sorted by id
func arrParts(a *Term) (*Term, []*Term) {
	if a.op == "arr" {
		return a.args[0], a.args[1:]
	}
	return a, nil
}

func mkArr(base *Term, ents []*Term) *Term {
	if len(ents) == 0 {
		return base
	}
	return mk("arr", base.sort, "", 0, append([]*Term{base}, ents...), nil)
}

func arrFind(ents []*Term, k *Term) (int, bool) {
	n := len(ents) / 2
	i := sort.Search(n, func(i int) bool { return ents[2*i].id >= k.id })
	return i, i < n && ents[2*i] == k
}

func arrPut(ents []*Term, k, v *Term) []*Term {
	i, ok := arrFind(ents, k)
	r := make([]*Term, 0, len(ents)+2)
	r = append(r, ents[:2*i]...)
	r = append(r, k, v)
	if ok {
		r = append(r, ents[2*i+2:]...)
	} else {
		r = append(r, ents[2*i:]...)
	}
	return r
}

func mkStore(a, k, v *Term) *Term {
	if isLiteral(k) {
		base, ents := arrParts(a)
		return mkArr(base, arrPut(ents, k, v))
	}
	if k.op == "ite" {
		r := a
		for _, l := range leavesOf(k) {
			r = mkStore(r, l.t, mkIte(l.g, v, mkSelect(r, l.t)))
		}
		return r
	}
	// opaque key: explicit allocation entries cannot alias an opaque reference
	if a.sort.k == SRef {
		base, ents := arrParts(a)
		for i := 0; i < len(ents); i += 2 {
			if !isAllocLit(ents[i]) {
				return mk("store", a.sort, "", 0, []*Term{a, k, v}, nil)
			}
		}
		if base.op == "store" && base.args[1] == k {
			base = base.args[0]
		}
		return mkArr(mk("store", a.sort, "", 0, []*Term{base, k, v}, nil), ents)
	}
	if a.op == "store" && a.args[1] == k {
		a = a.args[0]
	}
	return mk("store", a.sort, "", 0, []*Term{a, k, v}, nil)
}

var selMemo = map[[2]*Term]*Term{}

func mkSelect(a, k *Term) *Term {
	mk2 := [2]*Term{a, k}
	if r := selMemo[mk2]; r != nil {
		return r
	}
	r := mkSelect1(a, k)
	selMemo[mk2] = r
	return r
}

func mkSelect1(a, k *Term) *Term {
	if k.op == "ite" && iteLeaves(k, 40) < 40 {
		return mkIte(k.args[0], mkSelect(a, k.args[1]), mkSelect(a, k.args[2]))
	}
	switch a.op {
	case "karr":
		return a.args[0]
	case "arr":
		base, ents := arrParts(a)
		if isLiteral(k) {
			if i, ok := arrFind(ents, k); ok {
				return ents[2*i+1]
			}
			return mkSelect(base, k)
		}
		if a.sort.k == SRef && isOpaque(k) {
			rest := base
			for i := 0; i < len(ents); i += 2 {
				if !distinctRefs(ents[i], k) {
					return mk("select", a.sort.v, "", 0, []*Term{a, k}, nil)
				}
			}
			return mkSelect(rest, k)
		}
		// symbolic key over a short explicit map
		if len(ents)/2 <= 64 && a.sort.k != SRef {
			r := mkSelect(base, k)
			for i := 0; i < len(ents); i += 2 {
				r = mkIte(mkEq(k, ents[i]), ents[i+1], r)
			}
			return r
		}
	case "store":
		e := mkEq(a.args[1], k)
		if e == TTrue {
			return a.args[2]
		}
		if e == TFalse {
			return mkSelect(a.args[0], k)
		}
		return mkIte(e, a.args[2], mkSelect(a.args[0], k))
	case "ite":
		return mkIte(a.args[0], mkSelect(a.args[1], k), mkSelect(a.args[2], k))
	}
	if r := selectRule(a, k); r != nil {
		return r
	}
	return mk("select", a.sort.v, "", 0, []*Term{a, k}, nil)
}

// mergeArr merges two arrays under a condition pointwise when they share a base.
func mergeArr(c, a, b *Term) *Term {
	ba, ea := arrParts(a)
	bb, eb := arrParts(b)
	if len(ea) == 0 && len(eb) == 0 {
		return nil
	}
	base := ba
	if ba != bb {
		base = mkIte(c, ba, bb)
	}
	var out []*Term
	i, j := 0, 0
	for i < len(ea) || j < len(eb) {
		switch {
		case j >= len(eb) || i < len(ea) && ea[i].id < eb[j].id:
			out = append(out, ea[i], mergeEnt(c, ea[i], ea[i+1], nil, bb))
			i += 2
		case i >= len(ea) || eb[j].id < ea[i].id:
			out = append(out, eb[j], mergeEnt(c, eb[j], nil, eb[j+1], ba))
			j += 2
		default:
			out = append(out, ea[i], mkIte(c, ea[i+1], eb[j+1]))
			i += 2
			j += 2
		}
	}
	return mkArr(base, out)
}

func mergeEnt(c, k, va, vb, otherBase *Term) *Term {
	if isAllocLit(k) {
		// allocated on one branch only: never read on the other one
		if va != nil {
			return va
		}
		return vb
	}
	o := mkSelect(otherBase, k)
	if va != nil {
		return mkIte(c, va, o)
	}
	return mkIte(c, o, vb)
}

// ---- uninterpreted functions with rewriting ----

type rule func(sort *Sort, args []*Term) *Term

var rules = map[string]rule{}

// liftable functions distribute over ite in any argument
var liftIte = map[string]bool{}

func mkUF(name string, srt *Sort, args ...*Term) *Term {
	if listFns[name] {
		if t := listSplit(name, srt, args); t != nil {
			return t
		}
	}
	if r := rules[name]; r != nil {
		if t := r(srt, args); t != nil {
			return t
		}
	}
	if r := prefixRule(name, srt, args); r != nil {
		return r
	}
	if liftIte[name] {
		for i, a := range args {
			if a.op == "ite" {
				x := append([]*Term{}, args...)
				y := append([]*Term{}, args...)
				x[i], y[i] = a.args[1], a.args[2]
				return mkIte(a.args[0], mkUF(name, srt, x...), mkUF(name, srt, y...))
			}
		}
	}
	return mk("uf", srt, name, 0, append([]*Term{}, args...), nil)
}

func mkForall(vars []*Term, body *Term) *Term {
	if body.isConst() || !body.hasB {
		return body
	}
	return mk("forall", SBool, "", 0, append([]*Term{body}, vars...), nil)
}

func mkExists(vars []*Term, body *Term) *Term {
	return mkNot(mkForall(vars, mkNot(body)))
}

// subst replaces constants.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r := m[t]; r != nil {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		as := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return mkAnd(as...)
	case "or":
		return mkOr(as...)
	case "not":
		return mkNot(as[0])
	case "=":
		return mkEq(as[0], as[1])
	case "ite":
		return mkIte(as[0], as[1], as[2])
	case "lin":
		r := mkInt(t.n)
		for i, a := range as {
			r = mkAdd(r, mkMul(mkInt(t.co[i]), a))
		}
		return r
	case "le0":
		return mkLe0(as[0])
	case "select":
		return mkSelect(as[0], as[1])
	case "store":
		return mkStore(as[0], as[1], as[2])
	case "karr":
		return mkKArr(t.sort, as[0])
	case "arr":
		r := as[0]
		for i := 1; i < len(as); i += 2 {
			r = mkStore(r, as[i], as[i+1])
		}
		return r
	case "uf":
		return mkUF(t.s, t.sort, as...)
	case "forall":
		return mkForall(as[1:], as[0])
	}
	panic("rebuild " + t.op)
}

// Str renders a term (bounded) for messages.
func (t *Term) Str() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}

func (t *Term) write(b *strings.Builder, d int) {
	if b.Len() > 3000 || d > 14 {
		b.WriteString("..")
		return
	}
	switch t.op {
	case "true", "false":
		b.WriteString(t.op)
	case "int":
		fmt.Fprint(b, t.n)
	case "str":
		fmt.Fprintf(b, "%q", t.s)
	case "const", "lit":
		b.WriteString(t.s)
	case "lin":
		b.WriteString("(+ ")
		fmt.Fprint(b, t.n)
		for i, a := range t.args {
			fmt.Fprintf(b, " %d*", t.co[i])
			a.write(b, d+1)
		}
		b.WriteString(")")
	default:
		n := t.op
		if t.op == "uf" {
			n = t.s
		}
		b.WriteString("(" + n)
		for _, a := range t.args {
			b.WriteString(" ")
			a.write(b, d+1)
		}
		b.WriteString(")")
	}
}
