package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"

	"verif.local/spec"
)

// The term constructors simplify as they build. This test builds random terms next to
// their values under a random assignment and compares: a wrong rewriting rule shows as
// a term whose value is not the value of what was built.

type tv struct {
	t *Term
	v any // string, int64, bool, []string (an array of strings with default "")
}

type env map[*Term]any

func at(a any, i int64) string {
	l := a.([]string)
	if i < 0 || i >= int64(len(l)) {
		return ""
	}
	return l[i]
}

func evalTerm(t *Term, e env) any {
	ev := func(i int) any { return evalTerm(t.args[i], e) }
	switch t.op {
	case "true":
		return true
	case "false":
		return false
	case "int":
		return t.n
	case "str":
		return t.s
	case "const":
		return e[t]
	case "and":
		for i := range t.args {
			if !ev(i).(bool) {
				return false
			}
		}
		return true
	case "or":
		for i := range t.args {
			if ev(i).(bool) {
				return true
			}
		}
		return false
	case "not":
		return !ev(0).(bool)
	case "=":
		return fmt.Sprint(ev(0)) == fmt.Sprint(ev(1))
	case "ite":
		if ev(0).(bool) {
			return ev(1)
		}
		return ev(2)
	case "lin":
		n := t.n
		for i := range t.args {
			n += t.co[i] * ev(i).(int64)
		}
		return n
	case "le0":
		return ev(0).(int64) <= 0
	case "select":
		return at(ev(0), ev(1).(int64))
	case "karr":
		return []string(nil)
	case "arr", "store":
		l := append([]string{}, ev(0).([]string)...)
		for i := 1; i < len(t.args); i += 2 {
			k := ev(i).(int64)
			for int64(len(l)) <= k {
				l = append(l, "")
			}
			if k >= 0 {
				l[k] = ev(i + 1).(string)
			}
		}
		return l
	case "uf":
		as := make([]any, len(t.args))
		for i := range as {
			as[i] = ev(i)
		}
		return apply(t.s, as)
	}
	panic("op " + t.op)
}

func apply(n string, a []any) any {
	if n == "b64" {
		return spec.Pure["b64"](a)
	}
	if f := spec.Pure[n]; f != nil {
		return f(a)
	}
	firstN := func(l any, n int64) []string {
		var r []string
		for i := int64(0); i < n; i++ {
			r = append(r, at(l, i))
		}
		return r
	}
	switch n {
	case "cat":
		s := ""
		for _, x := range a {
			s += x.(string)
		}
		return s
	case "splitarr":
		return strings.Split(a[0].(string), a[1].(string))
	case "splitlen":
		return int64(len(strings.Split(a[0].(string), a[1].(string))))
	case "joinarr":
		var r []string
		for i := int64(0); i < a[2].(int64); i++ {
			r = append(r, at(a[0], a[1].(int64)+i))
		}
		return strings.Join(r, a[3].(string))
	case "pre":
		for _, x := range firstN(a[0], a[1].(int64)) {
			if x == a[2] {
				return true
			}
		}
		return false
	case "filtarr", "filtlen":
		var r []string
		for _, x := range firstN(a[0], a[1].(int64)) {
			if x != a[2] {
				r = append(r, x)
			}
		}
		if n == "filtlen" {
			return int64(len(r))
		}
		return r
	case "sortarr": // sorted in place from an offset
		l := append([]string{}, a[0].([]string)...)
		o, m := a[1].(int64), a[2].(int64)
		if o < 0 || m < 0 { // a read out of the shared branch of a conditional
			return l
		}
		for int64(len(l)) < o+m {
			l = append(l, "")
		}
		sort.Strings(l[o : o+m])
		return l
	case "cutafter":
		p := strings.Split(a[0].(string), a[1].(string))
		k := a[2].(int64)
		if k < 0 || int(k) >= len(p) {
			return ""
		}
		return strings.Join(p[k:], a[1].(string))
	case "b64dec":
		b, _ := spec.B64(a[0].(string)).DecodeString(a[1].(string))
		return string(b)
	case "b64decok":
		_, err := spec.B64(a[0].(string)).DecodeString(a[1].(string))
		return err == nil
	}
	panic("uf " + n)
}

func TestSimplifier(t *testing.T) {
	lits := []string{"", " ", "a", "b", "ab", "a b", "b a", "A", "=", "&", "a=b", "ab ", "YQ==", "1", "none", "a b a", "%41", "<a>"}
	n := 400000
	if s := os.Getenv("SIMP_N"); s != "" {
		fmt.Sscan(s, &n)
	}
	if testing.Short() {
		n = 20000
	}
	for seed := int64(1); seed <= int64(n/200); seed++ {
		r := rand.New(rand.NewSource(seed))
		e := env{}
		var ss, is, bs, as []tv
		for i := 0; i < 4; i++ {
			s := mkConst(fmt.Sprintf("s%d", i), SStr)
			e[s] = lits[r.Intn(len(lits))]
			ss = append(ss, tv{s, e[s]})
			k := mkConst(fmt.Sprintf("i%d", i), SInt)
			e[k] = int64(r.Intn(4))
			is = append(is, tv{k, e[k]})
			b := mkConst(fmt.Sprintf("b%d", i), SBool)
			e[b] = r.Intn(2) == 0
			bs = append(bs, tv{b, e[b]})
			a := mkConst(fmt.Sprintf("a%d", i), SStrArr)
			var l []string
			for j := 0; j < r.Intn(4); j++ {
				l = append(l, lits[r.Intn(len(lits))])
			}
			e[a] = l
			as = append(as, tv{a, e[a]})
		}
		S := func() tv {
			if r.Intn(3) == 0 {
				l := lits[r.Intn(len(lits))]
				return tv{mkStr(l), l}
			}
			return ss[r.Intn(len(ss))]
		}
		I := func() tv {
			if r.Intn(3) == 0 {
				k := int64(r.Intn(4))
				return tv{mkInt(k), k}
			}
			return is[r.Intn(len(is))]
		}
		B := func() tv { return bs[r.Intn(len(bs))] }
		A := func() tv {
			if r.Intn(6) == 0 {
				return tv{mkKArr(SStrArr, TEmpty), []string(nil)}
			}
			return as[r.Intn(len(as))]
		}
		K := func() tv {
			k := []string{"std", "url", "raw", "rawurl"}[r.Intn(4)]
			return tv{mkStr(k), k}
		}
		Sep := func() tv {
			k := []string{" ", "=", "&", "a"}[r.Intn(4)]
			return tv{mkStr(k), k}
		}
		for step := 0; step < 200; step++ {
			var what string
			var got *Term
			var want any
			uf := func(name string, srt *Sort, xs ...tv) {
				var ts []*Term
				var vs []any
				for _, x := range xs {
					ts, vs = append(ts, x.t), append(vs, x.v)
				}
				what = name
				got, want = mkUF(name, srt, ts...), apply(name, vs)
			}
			switch op := r.Intn(38); op {
			case 0, 1, 2:
				uf("cat", SStr, S(), S())
			case 3:
				uf("cat", SStr, S(), S(), S())
			case 4:
				uf("slen", SInt, S())
			case 5:
				uf("lower", SStr, S())
			case 6:
				uf("hasprefix", SBool, S(), S())
			case 7:
				uf("hassuffix", SBool, S(), S())
			case 8:
				uf("contains", SBool, S(), S())
			case 9:
				uf("equalfold", SBool, S(), S())
			case 10:
				uf("quote", SStr, S())
			case 11:
				uf("itoa", SStr, I())
			case 12:
				uf("atoiok", SBool, S())
			case 13:
				uf("qescape", SStr, S())
			case 14:
				uf("qunescape", SStr, S())
			case 15:
				uf("htmlesc", SStr, S())
			case 16:
				uf("b64", SStr, K(), S())
			case 17:
				uf("b64dec", SStr, K(), S())
			case 18:
				x := S()
				n := int64(len(x.v.(string)))
				lo := I()
				hi := tv{mkPure("slen", x.t), n}
				if r.Intn(2) == 0 {
					hi = I()
				}
				if lo.v.(int64) < 0 || lo.v.(int64) > hi.v.(int64) || hi.v.(int64) > n {
					continue // out of range: an obligation of its own
				}
				uf("substr", SStr, x, lo, hi)
			case 19:
				uf("splitarr", SStrArr, S(), Sep())
			case 20:
				uf("splitlen", SInt, S(), Sep())
			case 21:
				x, p := S(), Sep()
				uf("joinarr", SStr, tv{splitArr(x.t, p.t), apply("splitarr", []any{x.v, p.v})}, tv{mkInt(0), int64(0)},
					tv{splitLen(x.t, p.t), apply("splitlen", []any{x.v, p.v})}, p)
			case 22:
				uf("joinarr", SStr, A(), I(), I(), Sep())
			case 23:
				uf("pre", SBool, A(), I(), S())
			case 24:
				x, p, w := S(), Sep(), S()
				arr, n := tv{splitArr(x.t, p.t), apply("splitarr", []any{x.v, p.v})}, tv{splitLen(x.t, p.t), apply("splitlen", []any{x.v, p.v})}
				fa := tv{mkUF("filtarr", SStrArr, arr.t, n.t, w.t), apply("filtarr", []any{arr.v, n.v, w.v})}
				fl := tv{mkUF("filtlen", SInt, arr.t, n.t, w.t), apply("filtlen", []any{arr.v, n.v, w.v})}
				j := tv{mkUF("joinarr", SStr, fa.t, mkInt(0), fl.t, p.t), apply("joinarr", []any{fa.v, int64(0), fl.v, p.v})}
				y := S()
				uf("pre", SBool, tv{splitArr(j.t, p.t), apply("splitarr", []any{j.v, p.v})}, tv{splitLen(j.t, p.t), apply("splitlen", []any{j.v, p.v})}, y)
			case 25:
				uf("filtlen", SInt, A(), I(), S())
			case 26:
				uf("filtarr", SStrArr, A(), I(), S())
			case 27:
				x, o, m := A(), I(), I()
				if o.v.(int64) < 0 || m.v.(int64) < 0 {
					continue
				}
				uf("sortarr", SStrArr, x, o, m)
			case 28:
				x, p := S(), Sep()
				b, a, f := cut(x.t, p.t)
				wb, wa, wf := strings.Cut(x.v.(string), p.v.(string))
				ss = append(ss, tv{b, wb}, tv{a, wa})
				bs = append(bs, tv{f, wf})
				for _, c := range []tv{{b, wb}, {a, wa}, {f, wf}} {
					if g := evalTerm(c.t, e); g != c.v {
						t.Fatalf("seed %d cut(%s, %s): %v, want %v", seed, x.t.Str(), p.t.Str(), g, c.v)
					}
				}
				continue
			case 29:
				a, b := S(), S()
				what, got, want = "=str", mkEq(a.t, b.t), a.v == b.v
			case 30:
				a, b := I(), I()
				what, got, want = "=int", mkEq(a.t, b.t), a.v == b.v
			case 31:
				a, b := I(), I()
				what, got, want = "<=", mkLe(a.t, b.t), a.v.(int64) <= b.v.(int64)
			case 32:
				a, b := I(), I()
				if r.Intn(2) == 0 {
					what, got, want = "+", mkAdd(a.t, b.t), a.v.(int64)+b.v.(int64)
				} else {
					what, got, want = "-", mkSub(a.t, b.t), a.v.(int64)-b.v.(int64)
				}
			case 33:
				c, a, b := B(), S(), S()
				what, got, want = "ite str", mkIte(c.t, a.t, b.t), b.v
				if c.v.(bool) {
					want = a.v
				}
			case 34:
				c, a, b := B(), A(), A()
				what, got, want = "ite arr", mkIte(c.t, a.t, b.t), b.v
				if c.v.(bool) {
					want = a.v
				}
			case 35:
				a, i := A(), I()
				what, got, want = "select", mkSelect(a.t, i.t), ""
				if i.v.(int64) >= 0 {
					want = at(a.v, i.v.(int64))
				}
			case 36:
				a, i, s := A(), I(), S()
				if i.v.(int64) < 0 {
					continue
				}
				l := append([]string{}, a.v.([]string)...)
				for int64(len(l)) <= i.v.(int64) {
					l = append(l, "")
				}
				l[i.v.(int64)] = s.v.(string)
				what, got, want = "store", mkStore(a.t, i.t, s.t), l
			case 37:
				a, b, c := B(), B(), B()
				x, y, z := a.v.(bool), b.v.(bool), c.v.(bool)
				switch r.Intn(4) {
				case 0:
					what, got, want = "and", mkAnd(a.t, b.t, c.t), x && y && z
				case 1:
					what, got, want = "or", mkOr(a.t, b.t, c.t), x || y || z
				case 2:
					what, got, want = "not", mkNot(a.t), !x
				case 3:
					what, got, want = "ite bool", mkIte(a.t, b.t, c.t), z
					if x {
						want = y
					}
				}
			}
			g := evalTerm(got, e)
			if !same(g, want) {
				t.Fatalf("seed %d step %d %s: built %.1400s\n value %q, want %q", seed, step, what, got.Str(), g, want)
			}
			for _, ax := range groundAxioms(got) {
				if evalTerm(ax, e) != true {
					t.Fatalf("seed %d step %d: axiom of %.400s is false: %.400s", seed, step, got.Str(), ax.Str())
				}
			}
			if sz(got) > 60 {
				continue
			}
			x := tv{got, want}
			switch want := want.(type) {
			case string:
				if len(want) < 40 {
					ss = append(ss, x)
				}
			case int64:
				if want < 8 && want > -8 {
					is = append(is, x)
				}
			case bool:
				bs = append(bs, x)
			case []string:
				as = append(as, x)
			}
		}
	}
}

// arrays are compared up to trailing empty texts
func same(a, b any) bool {
	if x, ok := a.([]string); ok {
		y := b.([]string)
		for i := 0; i < len(x) || i < len(y); i++ {
			if at(x, int64(i)) != at(y, int64(i)) {
				return false
			}
		}
		return true
	}
	return a == b
}

func sz(t *Term) int {
	n := 1
	for _, a := range t.args {
		n += sz(a)
		if n > 1000 {
			return n
		}
	}
	return n
}
