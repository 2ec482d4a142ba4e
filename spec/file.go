package spec

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Macro is a named abbreviation, expanded at evaluation.
type Macro struct {
	Name   string
	Params []string
	Body   *Expr
}

// Clause is one named proof obligation family.
type Clause struct {
	Name string
	Kind string // clause | cover | requires | ensures | returns | invariant
	E    *Expr
	Es   []*Expr // for returns
}

// Contract attaches clauses to a root or function.
type Contract struct {
	Root    string   // root name, or pkg.Func for function contracts
	Props   []string // property ids
	IsFunc  bool
	Params  []string
	Clauses []*Clause
	Flags   map[string]bool
	Ignore  bool // not established: not used at calls
	File    string
	Line    int
}

// Set is everything loaded from the contract directory.
type Set struct {
	Macros    map[string]*Macro
	Contracts []*Contract
}

// Load reads every *.spec file below dir.
func Load(dir string) (*Set, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	s := &Set{Macros: map[string]*Macro{}}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := s.parse(string(b), filepath.Base(f)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return s, nil
}

// ParseExpr parses one expression.
func ParseExpr(src string) (e *Expr, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	p := &parser{ts: ts}
	e = p.expr(0)
	if p.peek().kind != "eof" {
		p.fail("trailing input")
	}
	return e, nil
}

func (s *Set) parse(src, file string) (err error) {
	ts, err := lex(src)
	if err != nil {
		return err
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	p := &parser{ts: ts}
	for p.peek().kind != "eof" {
		switch kw := p.id(); kw {
		case "macro":
			m := &Macro{Name: p.id()}
			if p.accept("(") {
				for !p.accept(")") {
					m.Params = append(m.Params, p.id())
					p.accept(",")
				}
			}
			p.expect("=")
			m.Body = p.expr(0)
			p.expect(";")
			if s.Macros[m.Name] != nil {
				p.fail("macro %s redefined", m.Name)
			}
			s.Macros[m.Name] = m
		case "contract", "func":
			c := &Contract{IsFunc: kw == "func", File: file, Line: p.peek().line, Flags: map[string]bool{}}
			c.Root = p.id()
			for p.accept(".") {
				c.Root += "." + p.id()
			}
			if p.accept("(") {
				for !p.accept(")") {
					c.Params = append(c.Params, p.id())
					p.accept(",")
				}
			}
			if p.accept("for") {
				for {
					c.Props = append(c.Props, p.id())
					if !p.accept(",") {
						break
					}
				}
			}
			p.expect("{")
			for !p.accept("}") {
				k := p.id()
				cl := &Clause{Kind: k}
				switch k {
				case "clause", "cover", "ensures", "invariant":
					cl.Name = p.id()
					p.expect(":")
					cl.E = p.expr(0)
				case "requires":
					cl.E = p.expr(0)
				case "returns":
					cl.Name = "returns"
					for {
						cl.Es = append(cl.Es, p.expr(0))
						if !p.accept(",") {
							break
						}
					}
				case "flag":
					c.Flags[p.id()] = true
					p.expect(";")
					continue
				default:
					p.fail("unknown item %s", k)
				}
				p.expect(";")
				for _, o := range c.Clauses {
					if o.Name != "" && o.Name == cl.Name {
						p.fail("clause %s duplicated in %s", cl.Name, c.Root)
					}
				}
				c.Clauses = append(c.Clauses, cl)
			}
			s.Contracts = append(s.Contracts, c)
		default:
			p.fail("unknown declaration %s", kw)
		}
	}
	return nil
}

// ForProp lists the contracts that carry clauses of property id.
func (s *Set) ForProp(id string) []*Contract {
	var r []*Contract
	for _, c := range s.Contracts {
		for _, p := range c.Props {
			if p == id {
				r = append(r, c)
			}
		}
	}
	return r
}

// FuncContract returns the callable contract of a function, or nil.
func (s *Set) FuncContract(name string) *Contract {
	for _, c := range s.Contracts {
		if c.IsFunc && c.Root == name {
			return c
		}
	}
	return nil
}

// Names collects identifiers used as event names.
func Names(e *Expr, m map[string]bool) {
	if e == nil {
		return
	}
	for _, n := range e.Evs {
		m[n] = true
	}
	for _, a := range e.Args {
		Names(a, m)
	}
}

// Literals collects string literals used in an expression.
func Literals(e *Expr, m map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "str" {
		m[e.Str] = true
	}
	for _, a := range e.Args {
		Literals(a, m)
	}
}

func trimName(s string) string { return strings.TrimSpace(s) }
