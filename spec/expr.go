// Package spec is the contract language shared by the deductive verifier
// (gover) and the concrete replay harness: lexer, parser, AST and the generic
// evaluator that both of them instantiate with their own value domain.
package spec

import (
	"fmt"
	"strconv"
	"strings"
)

// Expr is a contract expression.
type Expr struct {
	Op   string // str int bool nil var call field method all some let if forall exists unop binop
	Name string
	Str  string
	Int  int64
	Evs  []string
	Args []*Expr
	Line int
}

type token struct {
	kind string // id str int op eof
	s    string
	line int
	sp   bool // preceded by white space
}

func lex(src string) ([]token, error) {
	var ts []token
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "++", "<", ">", "!", "+", "-", "*", "(", ")", "{", "}", "[", "]", ",", ".", ":", ";", "=", "|", "/"}
	nts := 0
	gap := false
	for i < len(src) {
		c := src[i]
		for ; nts < len(ts); nts++ {
			ts[nts].sp = gap
			gap = false
		}
		if c <= ' ' || c == '#' {
			gap = true
		}
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("line %d: unterminated string", line)
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("line %d: %v", line, err)
			}
			ts = append(ts, token{"str", s, line, false})
			i = j + 1
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`')
			if j < 0 {
				return nil, fmt.Errorf("line %d: unterminated raw string", line)
			}
			s := src[i+1 : i+1+j]
			ts = append(ts, token{"str", s, line, false})
			line += strings.Count(s, "\n")
			i = i + j + 2
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			ts = append(ts, token{"int", src[i:j], line, false})
			i = j
		case isId(c):
			j := i
			for j < len(src) && (isId(src[j]) || (src[j] >= '0' && src[j] <= '9')) {
				j++
			}
			// identifiers may contain inner dashes in clause names: handled by the file parser
			ts = append(ts, token{"id", src[i:j], line, false})
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, token{"op", o, line, false})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("line %d: unexpected %q", line, c)
			}
		}
	}
	ts = append(ts, token{"eof", "", line, false})
	return ts, nil
}

func isId(c byte) bool {
	return c == '_' || c == '$' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}

type parser struct {
	ts []token
	p  int
}

func (p *parser) peek() token { return p.ts[p.p] }
func (p *parser) next() token { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.kind == "op" || t.kind == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Errorf("line %d: %s (at %q)", p.peek().line, fmt.Sprintf(f, a...), p.peek().s))
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) id() string {
	t := p.next()
	if t.kind != "id" {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}

var prec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"++": 6, "+": 7, "-": 7, "*": 8,
}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.kind != "op" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		l = &Expr{Op: "bin", Name: t.s, Args: []*Expr{l, r}, Line: t.line}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if p.accept("!") {
		return &Expr{Op: "not", Args: []*Expr{p.unary()}, Line: t.line}
	}
	if p.accept("-") {
		return &Expr{Op: "neg", Args: []*Expr{p.unary()}, Line: t.line}
	}
	return p.postfix()
}

func (p *parser) args() []*Expr {
	var as []*Expr
	if p.accept(")") {
		return as
	}
	for {
		as = append(as, p.expr(0))
		if p.accept(")") {
			return as
		}
		p.expect(",")
	}
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	// a dot set off by white space starts a quantifier body
	for p.is(".") && !p.peek().sp {
		p.next()
		t := p.peek()
		n := p.id()
		if p.accept("(") {
			e = &Expr{Op: "method", Name: n, Args: append([]*Expr{e}, p.args()...), Line: t.line}
		} else {
			e = &Expr{Op: "field", Name: n, Args: []*Expr{e}, Line: t.line}
		}
	}
	return e
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.kind {
	case "str":
		return &Expr{Op: "str", Str: t.s, Line: t.line}
	case "int":
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("%v", err)
		}
		return &Expr{Op: "int", Int: n, Line: t.line}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	case "id":
		switch t.s {
		case "true", "false":
			e := &Expr{Op: "bool", Line: t.line}
			if t.s == "true" {
				e.Int = 1
			}
			return e
		case "nil":
			return &Expr{Op: "nil", Line: t.line}
		case "all", "some":
			v := p.id()
			p.expect(":")
			evs := []string{p.id()}
			for p.accept("|") {
				evs = append(evs, p.id())
			}
			p.expect(".")
			b := p.expr(0)
			return &Expr{Op: t.s, Name: v, Evs: evs, Args: []*Expr{b}, Line: t.line}
		case "forall", "exists":
			// forall i in 0..n . body  (int range)   |  forall s:string . body
			v := p.id()
			if p.accept("in") {
				lo := p.expr(6)
				p.expect(":")
				hi := p.expr(6)
				p.expect(".")
				b := p.expr(0)
				return &Expr{Op: t.s, Name: v, Str: "int", Args: []*Expr{lo, hi, b}, Line: t.line}
			}
			p.expect(":")
			ty := p.id()
			p.expect(".")
			b := p.expr(0)
			return &Expr{Op: t.s, Name: v, Str: ty, Args: []*Expr{b}, Line: t.line}
		case "let":
			v := p.id()
			p.expect("=")
			a := p.expr(0)
			p.expect("in")
			b := p.expr(0)
			return &Expr{Op: "let", Name: v, Args: []*Expr{a, b}, Line: t.line}
		case "if":
			c := p.expr(0)
			p.expect("then")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return &Expr{Op: "if", Args: []*Expr{c, a, b}, Line: t.line}
		}
		if p.accept("(") {
			return &Expr{Op: "call", Name: t.s, Args: p.args(), Line: t.line}
		}
		return &Expr{Op: "var", Name: t.s, Line: t.line}
	}
	p.p--
	p.fail("unexpected token")
	return nil
}

func (e *Expr) String() string {
	if e == nil {
		return "<nil>"
	}
	as := func(xs []*Expr) string {
		var s []string
		for _, x := range xs {
			s = append(s, x.String())
		}
		return strings.Join(s, ", ")
	}
	switch e.Op {
	case "str":
		return strconv.Quote(e.Str)
	case "int":
		return fmt.Sprint(e.Int)
	case "bool":
		return fmt.Sprint(e.Int == 1)
	case "nil":
		return "nil"
	case "var":
		return e.Name
	case "call":
		return e.Name + "(" + as(e.Args) + ")"
	case "field":
		return e.Args[0].String() + "." + e.Name
	case "method":
		return e.Args[0].String() + "." + e.Name + "(" + as(e.Args[1:]) + ")"
	case "all", "some":
		return "(" + e.Op + " " + e.Name + ":" + strings.Join(e.Evs, "|") + " . " + e.Args[0].String() + ")"
	case "forall", "exists":
		if len(e.Args) == 3 {
			return "(" + e.Op + " " + e.Name + " in " + e.Args[0].String() + ":" + e.Args[1].String() + " . " + e.Args[2].String() + ")"
		}
		return "(" + e.Op + " " + e.Name + ":" + e.Str + " . " + e.Args[0].String() + ")"
	case "let":
		return "(let " + e.Name + " = " + e.Args[0].String() + " in " + e.Args[1].String() + ")"
	case "if":
		return "(if " + e.Args[0].String() + " then " + e.Args[1].String() + " else " + e.Args[2].String() + ")"
	case "not":
		return "!" + e.Args[0].String()
	case "neg":
		return "-" + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	}
	return "?" + e.Op
}
