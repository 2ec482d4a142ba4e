package main

import (
	"fmt"
	"net/textproto"
	"strings"

	"verif.local/spec"
)

// ---- concatenation ----

// partCond is the condition of the first conditional part.
func partCond(ps []*Term) *Term {
	for _, p := range ps {
		if p.op == "ite" {
			return p.args[0]
		}
	}
	return nil
}

// catContains reports that the parts q certainly occur contiguously in the parts h.
func catContains(h, q []*Term) bool {
	if len(q) == 0 {
		return true
	}
	for i := 0; i+len(q) <= len(h); i++ {
		ok := true
		for j, t := range q {
			p := h[i+j]
			if p == t {
				continue
			}
			if p.op != "str" || t.op != "str" {
				ok = false
			} else if len(q) == 1 {
				ok = strings.Contains(p.s, t.s)
			} else if j == 0 {
				ok = strings.HasSuffix(p.s, t.s)
			} else if j == len(q)-1 {
				ok = strings.HasPrefix(p.s, t.s)
			} else {
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// listFns are the functions over lists of strings; conditions inside are decided first.
var listFns = map[string]bool{"pre": true, "splitarr": true, "splitlen": true, "joinarr": true, "sortarr": true, "filtarr": true, "filtlen": true}

// listCond finds a condition a list term depends on.
func listCond(t *Term) *Term {
	switch {
	case t.op == "ite":
		return t.args[0]
	case t.op == "lin" || t.op == "uf" && listFns[t.s]:
		for _, a := range t.args {
			if c := listCond(a); c != nil {
				return c
			}
		}
	}
	return nil
}

var listSplits int

// listSplit rebuilds a list function under both outcomes of such a condition.
func listSplit(name string, srt *Sort, args []*Term) *Term {
	if listSplits >= 8 {
		return nil
	}
	for _, a := range args {
		c := listCond(a)
		if c == nil {
			continue
		}
		listSplits++
		defer func() { listSplits-- }()
		t, f := map[*Term]*Term{c: TTrue}, map[*Term]*Term{c: TFalse}
		y, n := make([]*Term, len(args)), make([]*Term, len(args))
		for i := range args {
			y[i], n[i] = subst(args[i], t), subst(args[i], f)
		}
		return mkIte(c, mkUF(name, srt, y...), mkUF(name, srt, n...))
	}
	return nil
}

// iteCond finds a condition a sum depends on.
func iteCond(t *Term) *Term {
	if t.op == "ite" {
		return t.args[0]
	}
	if t.op == "lin" {
		for _, a := range t.args {
			if c := iteCond(a); c != nil {
				return c
			}
		}
	}
	return nil
}

func catParts(t *Term) []*Term {
	if t.op == "uf" && t.s == "cat" {
		return t.args
	}
	if t == TEmpty {
		return nil
	}
	return []*Term{t}
}

func mkCat(as ...*Term) *Term {
	var ps []*Term
	for _, a := range as {
		for _, p := range catParts(a) {
			if n := len(ps); n > 0 && ps[n-1].op == "str" && p.op == "str" {
				ps[n-1] = mkStr(ps[n-1].s + p.s)
			} else {
				ps = append(ps, p)
			}
		}
	}
	switch len(ps) {
	case 0:
		return TEmpty
	case 1:
		return ps[0]
	}
	return mk("uf", SStr, "cat", 0, ps, nil)
}

// strEqSimp simplifies string equalities; nil when undecided.
func strEqSimp(a, b *Term) *Term {
	// JSON texts of different kinds
	if isLiteral(a) {
		a, b = b, a
	}
	if b.op == "str" && a.op == "uf" && b.s != "" {
		switch {
		case a.s == "json" && b.s[0] != '{', a.s == "jqs" && b.s[0] != '"':
			return TFalse
		case a.s == "itoa" && !(b.s[0] == '-' || b.s[0] >= '0' && b.s[0] <= '9'):
			return TFalse
		}
	}
	pa, pb := catParts(a), catParts(b)
	if len(pa) < 2 && len(pb) < 2 {
		if a.op == "str" || b.op == "str" {
			return fnEqLit(a, b)
		}
		return nil
	}
	pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.op == "str" && y.op == "str" {
			switch {
			case strings.HasPrefix(x.s, y.s):
				pa[0] = mkStr(x.s[len(y.s):])
				pb = pb[1:]
			case strings.HasPrefix(y.s, x.s):
				pb[0] = mkStr(y.s[len(x.s):])
				pa = pa[1:]
			default:
				return TFalse
			}
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.op == "str" && y.op == "str" {
			switch {
			case strings.HasSuffix(x.s, y.s):
				pa[len(pa)-1] = mkStr(x.s[:len(x.s)-len(y.s)])
				pb = pb[:len(pb)-1]
			case strings.HasSuffix(y.s, x.s):
				pb[len(pb)-1] = mkStr(y.s[:len(y.s)-len(x.s)])
				pa = pa[:len(pa)-1]
			default:
				return TFalse
			}
			changed = true
			continue
		}
		break
	}
	lit := func(ps []*Term) bool {
		for _, p := range ps {
			if p.op == "str" && p.s != "" {
				return true
			}
		}
		return false
	}
	if len(pa) == 0 && lit(pb) || len(pb) == 0 && lit(pa) {
		return TFalse
	}
	// a literal side too short for the literals on the other side
	if len(pb) == 1 && pb[0].op == "str" || len(pa) == 1 && pa[0].op == "str" {
		l, o := pb, pa
		if len(pa) == 1 && pa[0].op == "str" {
			l, o = pa, pb
		}
		s := l[0].s
		for _, p := range o {
			if p.op == "str" {
				i := strings.Index(s, p.s)
				if i < 0 {
					return TFalse
				}
				s = s[i+len(p.s):]
			}
		}
	}
	x, y := mkCat(pa...), mkCat(pb...)
	if eqSplits < 7 && (len(pa) > 1 || len(pb) > 1) {
		if c := partCond(append(append([]*Term{}, pa...), pb...)); c != nil {
			eqSplits++
			defer func() { eqSplits-- }()
			t, f := map[*Term]*Term{c: TTrue}, map[*Term]*Term{c: TFalse}
			return mkIte(c, mkEq(subst(x, t), subst(y, t)), mkEq(subst(x, f), subst(y, f)))
		}
	}
	if !changed {
		return nil
	}
	return mkEq(x, y)
}

// eqSplits bounds the case splits of string equalities.
var eqSplits int

// fnEqLit decides f(x) = literal for functions with known images.
func fnEqLit(a, b *Term) *Term {
	if a.op == "str" {
		a, b = b, a
	}
	if a.op != "uf" || b.op != "str" {
		return nil
	}
	switch a.s {
	case "lower":
		if strings.ToLower(b.s) != b.s {
			return TFalse
		}
	case "quote":
		if len(b.s) < 2 {
			return TFalse
		}
	case "itoa", "sha256", "sha384", "sha512", "json", "jwtsign":
		if b.s == "" {
			return TFalse
		}
	case "b64":
		if b.s == "" {
			return mkEq(a.args[1], TEmpty)
		}
	case "qescape", "htmlesc":
		if b.s == "" {
			return mkEq(a.args[0], TEmpty)
		}
	}
	return nil
}

// ---- pure functions ----

var pureSort = map[string]*Sort{
	"slen": SInt, "lower": SStr, "upper": SStr, "trimspace": SStr, "hasprefix": SBool,
	"hassuffix": SBool, "contains": SBool, "equalfold": SBool, "quote": SStr, "itoa": SStr,
	"atoiok": SBool, "atoi": SInt, "qescape": SStr, "qunescape": SStr, "qunescapeok": SBool,
	"htmlesc": SStr, "b64": SStr, "sha256": SStr, "sha384": SStr, "sha512": SStr, "substr": SStr,
}

func foldPure(name string, args []*Term) *Term {
	f := spec.Pure[name]
	if f == nil {
		return nil
	}
	var as []any
	for _, a := range args {
		switch a.op {
		case "str":
			as = append(as, a.s)
		case "int":
			as = append(as, a.n)
		default:
			return nil
		}
	}
	switch v := f(as).(type) {
	case string:
		return mkStr(v)
	case int64:
		return mkInt(v)
	case bool:
		return mkBool(v)
	}
	return nil
}

func mkPure(name string, args ...*Term) *Term {
	srt := pureSort[name]
	if srt == nil {
		panic("unknown pure function " + name)
	}
	return mkUF(name, srt, args...)
}

func canonHeader(t *Term) *Term {
	if t.op == "str" {
		return mkStr(textproto.CanonicalMIMEHeaderKey(t.s))
	}
	return mkUF("canonheader", SStr, t)
}

func init() {
	for n := range pureSort {
		n := n
		rules[n] = func(s *Sort, a []*Term) *Term {
			if r := foldPure(n, a); r != nil {
				return r
			}
			switch n {
			case "slen":
				if a[0].op == "uf" && a[0].s == "cat" {
					r := mkInt(0)
					for _, p := range a[0].args {
						r = mkAdd(r, mkPure("slen", p))
					}
					return r
				}
				if a[0].op == "uf" && a[0].s == "sha256" {
					return mkInt(32)
				}
				if a[0].op == "uf" && a[0].s == "sha384" {
					return mkInt(48)
				}
				if a[0].op == "uf" && a[0].s == "sha512" {
					return mkInt(64)
				}
				if a[0].op == "uf" && a[0].s == "substr" && a[0].args[1].op == "int" && a[0].args[2].op == "int" {
					return mkInt(a[0].args[2].n - a[0].args[1].n)
				}
			case "hasprefix":
				if a[1] == TEmpty || a[0] == a[1] {
					return TTrue
				}
				ps := catParts(a[0])
				if qs := catParts(a[1]); len(ps) > 0 && (len(qs) > 1 || len(qs) == 1 && qs[0].op != "str") {
					// the same start on both sides
					i := 0
					for i < len(ps) && i < len(qs) && ps[i] == qs[i] {
						i++
					}
					if i == len(qs) {
						return TTrue
					}
					if i < len(ps) && i == len(qs)-1 && ps[i].op == "str" && qs[i].op == "str" && strings.HasPrefix(ps[i].s, qs[i].s) {
						return TTrue
					}
					if i > 0 {
						return mkPure("hasprefix", mkCat(ps[i:]...), mkCat(qs[i:]...))
					}
				}
				if a[1].op == "str" && len(ps) > 1 && ps[0].op == "str" {
					if strings.HasPrefix(ps[0].s, a[1].s) {
						return TTrue
					}
					if !strings.HasPrefix(a[1].s, ps[0].s) {
						return TFalse
					}
				}
			case "contains":
				if catContains(catParts(a[0]), catParts(a[1])) {
					return TTrue
				}
				if c := partCond(catParts(a[0])); c != nil && eqSplits < 7 {
					eqSplits++
					defer func() { eqSplits-- }()
					t, f := map[*Term]*Term{c: TTrue}, map[*Term]*Term{c: TFalse}
					return mkIte(c, mkPure("contains", subst(a[0], t), subst(a[1], t)), mkPure("contains", subst(a[0], f), subst(a[1], f)))
				}
			case "substr":
				if r := cutSlice(a[0], a[1], a[2]); r != nil {
					return r
				}
				for _, t := range []*Term{a[1], a[2], a[0]} {
					if c := iteCond(t); c != nil && eqSplits < 4 {
						eqSplits++
						defer func() { eqSplits-- }()
						y, n := map[*Term]*Term{c: TTrue}, map[*Term]*Term{c: TFalse}
						return mkIte(c, mkPure("substr", subst(a[0], y), subst(a[1], y), subst(a[2], y)),
							mkPure("substr", subst(a[0], n), subst(a[1], n), subst(a[2], n)))
					}
				}
				if a[1].op == "int" && a[1].n == 0 && mkPure("slen", a[0]) == a[2] {
					return a[0]
				}
				// nested substrings
				if x := a[0]; x.op == "uf" && x.s == "substr" {
					return mkPure("substr", x.args[0], mkAdd(x.args[1], a[1]), mkAdd(x.args[1], a[2]))
				}
				if a[1] == a[2] {
					return TEmpty
				}
				// cut a literal prefix off a concatenation
				if ps := catParts(a[0]); len(ps) > 1 && ps[0].op == "str" && a[1].op == "int" && a[1].n == int64(len(ps[0].s)) && mkPure("slen", a[0]) == a[2] {
					return mkCat(ps[1:]...)
				}
			case "equalfold":
				return mkEq(mkPure("lower", a[0]), mkPure("lower", a[1]))
			case "qunescape":
				if a[0].op == "uf" && a[0].s == "qescape" {
					return a[0].args[0]
				}
			case "qunescapeok":
				if a[0].op == "uf" && a[0].s == "qescape" {
					return TTrue
				}
			case "atoiok":
				if a[0].op == "uf" && a[0].s == "itoa" {
					return TTrue
				}
			case "atoi":
				if a[0].op == "uf" && a[0].s == "itoa" {
					return a[0].args[0]
				}
			case "lower":
				if a[0].op == "uf" && a[0].s == "lower" {
					return a[0]
				}
			}
			return nil
		}
	}
	for _, n := range []string{"slen", "jhas", "jget"} {
		liftIte[n] = true
	}
	rules["cat"] = func(_ *Sort, a []*Term) *Term { return mkCat(a...) }
	rules["splitlen"] = func(_ *Sort, a []*Term) *Term {
		if a[0].op == "str" && a[1].op == "str" {
			return mkInt(int64(len(strings.Split(a[0].s, a[1].s))))
		}
		return nil
	}
	rules["splitarr"] = func(s *Sort, a []*Term) *Term {
		if a[0].op == "str" && a[1].op == "str" {
			r := mkKArr(s, TEmpty)
			for i, p := range strings.Split(a[0].s, a[1].s) {
				r = mkStore(r, mkInt(int64(i)), mkStr(p))
			}
			return r
		}
		return nil
	}
	rules["joinarr"] = func(s *Sort, a []*Term) *Term {
		// joinarr(arr, off, len, sep) with a literal length
		if a[1].op == "int" && a[2].op == "int" && a[2].n <= 32 {
			var ps []*Term
			for i := int64(0); i < a[2].n; i++ {
				if i > 0 {
					ps = append(ps, a[3])
				}
				ps = append(ps, mkSelect(a[0], mkInt(a[1].n+i)))
			}
			return mkCat(ps...)
		}
		// join(split(s,sep),sep) = s
		if x := a[0]; x.op == "uf" && x.s == "splitarr" && a[1].op == "int" && a[1].n == 0 &&
			x.args[1] == a[3] && a[2] == mkUF("splitlen", SInt, x.args...) {
			return x.args[0]
		}
		return nil
	}
	liftIte["hasprefix"] = true
	liftIte["lower"] = true
	liftIte["upper"] = true
	liftIte["atoi"] = true
	liftIte["atoiok"] = true
	liftIte["hassuffix"] = true
	liftIte["quote"] = true
	rules["sortarr"] = func(s *Sort, a []*Term) *Term {
		if a[1].op == "int" && a[2].op == "int" && a[2].n <= 1 {
			return a[0]
		}
		return nil
	}
	rules["pre"] = func(_ *Sort, a []*Term) *Term {
		// pre(arr, n, x): x occurs among the first n elements
		if r := preRemoved(a); r != nil {
			return r
		}
		if a[1].op == "int" {
			if a[1].n <= 0 {
				return TFalse
			}
			if a[1].n <= 16 {
				r := TFalse
				for i := int64(0); i < a[1].n; i++ {
					r = mkOr(r, mkEq(mkSelect(a[0], mkInt(i)), a[2]))
				}
				return r
			}
		}
		return nil
	}
	rules["filtlen"] = func(_ *Sort, a []*Term) *Term {
		if a[1].op == "int" && a[1].n == 0 {
			return mkInt(0)
		}
		return nil
	}
	rules["filtarr"] = func(s *Sort, a []*Term) *Term {
		if a[1].op == "int" && a[1].n == 0 {
			return mkKArr(s, TEmpty)
		}
		return nil
	}
	rules["jhas"] = func(_ *Sort, a []*Term) *Term {
		if a[0].op == "uf" && a[0].s == "json" {
			return mkSelect(a[0].args[0], a[1])
		}
		return nil
	}
	rules["jget"] = func(_ *Sort, a []*Term) *Term {
		if a[0].op == "uf" && a[0].s == "json" {
			return mkSelect(a[0].args[1], a[1])
		}
		return nil
	}
	rules["unix"] = func(_ *Sort, a []*Term) *Term {
		if a[0].op == "uf" && a[0].s == "timeadd" {
			if q := divExact(a[0].args[1], 1000000000); q != nil {
				return mkAdd(mkUF("unix", SInt, a[0].args[0]), q)
			}
		}
		if a[0].op == "uf" && a[0].s == "timeunix" {
			return a[0].args[0]
		}
		return nil
	}
	liftIte["unix"] = true
	rules["b64dec"] = func(_ *Sort, a []*Term) *Term {
		if a[1].op == "uf" && a[1].s == "b64" && a[1].args[0] == a[0] {
			return a[1].args[1]
		}
		return nil
	}
	rules["b64decok"] = func(_ *Sort, a []*Term) *Term {
		if a[1].op == "uf" && a[1].s == "b64" && a[1].args[0] == a[0] {
			return TTrue
		}
		return nil
	}
	liftIte["b64dec"] = true
	liftIte["b64decok"] = true
}

// preRemoved: a non-empty word occurs in a list from which t was removed exactly when
// it is not t and occurs in the list (joining and splitting at the same separator keeps
// every word, since no element of a split contains the separator).
func preRemoved(a []*Term) *Term {
	s, x := a[0], a[2]
	if x.op != "str" || x.s == "" || s.op != "uf" || s.s != "splitarr" || a[1] != mkUF("splitlen", SInt, s.args...) {
		return nil
	}
	sep, j := s.args[1], s.args[0]
	if j.op != "uf" || j.s != "joinarr" || j.args[3] != sep || j.args[1] != mkInt(0) || sep.op != "str" || strings.Contains(x.s, sep.s) {
		return nil
	}
	f := j.args[0]
	if f.op != "uf" || f.s != "filtarr" || j.args[2] != mkUF("filtlen", SInt, f.args...) {
		return nil
	}
	src, n, t := f.args[0], f.args[1], f.args[2]
	if src.op != "uf" || src.s != "splitarr" || src.args[1] != sep || n != mkUF("splitlen", SInt, src.args...) {
		return nil
	}
	return mkAnd(mkNot(mkEq(t, x)), mkPre(src, n, x))
}

var SStrArr = SArr(SInt, SStr)

// slenLit is the length of a literal text, -1 for any other.
func slenLit(t *Term) int {
	if t.op == "str" {
		return len(t.s)
	}
	return -1
}

// cut describes a text by its parts: what comes before the first separator (all
// of it when there is none), what follows it, and whether there is one.
// cutafter(s, sep, k) is what follows the k-th separator of s.
func cut(s, sep *Term) (before, after, found *Term) {
	if slenLit(sep) <= 0 {
		f := mkPure("contains", s, sep)
		return mkIte(f, mkSelect(splitArr(s, sep), mkInt(0)), s), mkIte(f, mkUF("cutafter", SStr, s, sep, mkInt(1)), TEmpty), f
	}
	switch {
	case s.op == "str":
		b, a, f := strings.Cut(s.s, sep.s)
		return mkStr(b), mkStr(a), mkBool(f)
	case s.op == "ite":
		b1, a1, f1 := cut(s.args[1], sep)
		b2, a2, f2 := cut(s.args[2], sep)
		return mkIte(s.args[0], b1, b2), mkIte(s.args[0], a1, a2), mkIte(s.args[0], f1, f2)
	}
	k := mkInt(0)
	if s.op == "uf" && s.s == "cutafter" && s.args[1] == sep {
		s, k = s.args[0], s.args[2]
	}
	next := mkAdd(k, mkInt(1))
	found = mkLt(next, splitLen(s, sep))
	return mkSelect(splitArr(s, sep), k), mkIte(found, mkUF("cutafter", SStr, s, sep, next), TEmpty), found
}

// cutSlice rewrites slices of a text at its first separator, which is where the
// text before it ends.
func cutSlice(s, lo, hi *Term) *Term {
	sep := func(t *Term) *Term { // t = slen(the part of s before sep)
		if t.op != "uf" || t.s != "slen" || t.args[0].op != "select" {
			return nil
		}
		arr := t.args[0].args[0]
		if arr.op != "uf" || arr.s != "splitarr" || slenLit(arr.args[1]) <= 0 {
			return nil
		}
		if b, _, _ := cut(s, arr.args[1]); b == t.args[0] {
			return arr.args[1]
		}
		return nil
	}
	if lo.op == "int" && lo.n == 0 {
		if p := sep(hi); p != nil {
			b, _, _ := cut(s, p)
			return b
		}
	}
	if hi == mkPure("slen", s) {
		for n := int64(1); n <= 4; n++ {
			if p := sep(mkSub(lo, mkInt(n))); p != nil && slenLit(p) == int(n) {
				_, a, f := cut(s, p)
				return mkIte(f, a, mk("uf", SStr, "substr", 0, []*Term{s, lo, hi}, nil))
			}
		}
	}
	return nil
}

func splitArr(s, sep *Term) *Term { return mkUF("splitarr", SStrArr, s, sep) }
func splitLen(s, sep *Term) *Term { return mkUF("splitlen", SInt, s, sep) }
func mkPre(arr, n, x *Term) *Term { return mkUF("pre", SBool, arr, n, x) }

// selectRule rewrites reads of special arrays.
func selectRule(a, k *Term) *Term {
	if a.op == "uf" && a.s == "splitarr" && k.op == "int" && k.n == 0 && a.args[1].op == "str" {
		// the part of a base64 text before its padding
		x := a.args[0]
		if x.op == "uf" && x.s == "b64" && a.args[1].s == "=" {
			return mkPure("b64", rawKind(x.args[0]), x.args[1])
		}
		if ps := catParts(x); len(ps) > 1 && ps[0].op == "str" {
			if i := strings.Index(ps[0].s, a.args[1].s); i >= 0 {
				return mkStr(ps[0].s[:i])
			}
		}
	}
	return nil
}

func rawKind(k *Term) *Term {
	switch k.s {
	case "url", "rawurl":
		return mkStr("rawurl")
	}
	return mkStr("raw")
}

// ---- boxing ----

var typeIds = map[string]int64{}

func typeId(n string) int64 {
	if i, ok := typeIds[n]; ok {
		return i
	}
	i := int64(len(typeIds) + 1)
	typeIds[n] = i
	return i
}

func prefixRule(name string, srt *Sort, args []*Term) *Term {
	switch {
	case name == "tag":
		a := args[0]
		if isMk(a) {
			return mkInt(typeId(a.s[3:]))
		}
		if a == TNil {
			return mkInt(-1)
		}
		if a.op == "ite" && iteLeaves(a, 200) < 200 {
			return mkIte(a.args[0], mkUF("tag", SInt, a.args[1]), mkUF("tag", SInt, a.args[2]))
		}
	case strings.HasPrefix(name, "un:"):
		a := args[0]
		if isMk(a) {
			// un:<i>:<type>
			var i int
			rest := name[3:]
			j := strings.IndexByte(rest, ':')
			fmt.Sscanf(rest[:j], "%d", &i)
			if a.s[3:] == rest[j+1:] {
				return a.args[i]
			}
			return zeroOf(srt)
		}
		if a == TNil {
			return zeroOf(srt)
		}
		if a.op == "ite" && iteLeaves(a, 200) < 200 {
			return mkIte(a.args[0], mkUF(name, srt, a.args[1]), mkUF(name, srt, a.args[2]))
		}
	}
	return nil
}

func mkBox(typ string, leaves []*Term) *Term {
	return mk("uf", SRef, "mk:"+typ, 0, append([]*Term{}, leaves...), nil)
}
func mkUnbox(typ string, i int, srt *Sort, v *Term) *Term {
	return mkUF(fmt.Sprintf("un:%d:%s", i, typ), srt, v)
}
func mkTag(v *Term) *Term { return mkUF("tag", SInt, v) }
