package spec

import "fmt"

// Value is a backend value.
type Value = any

// EventRef is one element of a trace.
type EventRef interface {
	EvName() string
	EvIndex() int
	EvGuard() Value // boolean value of the backend
	EvField(name string) (Value, error)
}

// Backend gives meaning to the expression language.
type Backend interface {
	Bool(bool) Value
	Int(int64) Value
	Str(string) Value
	Nil() Value
	Not(Value) Value
	And(a, b Value) Value
	Or(a, b Value) Value
	Ite(c, a, b Value) (Value, error)
	Bin(op string, a, b Value) (Value, error) // == != < <= > >= + - * ++
	Field(v Value, name string) (Value, error)
	Method(v Value, name string, args []Value) (Value, error)
	Call(name string, args []Value) (Value, error)
	Events() []EventRef
	// Range quantifies an int in [lo,hi) or a string.
	Range(forall bool, kind string, lo, hi Value, body func(Value) (Value, error)) (Value, error)
}

// ConstBool lets short-circuit evaluation see literal truth values.
type ConstBool interface{ IsConst(v Value) (bool, bool) }

// Env is a variable binding list.
type Env struct {
	up   *Env
	name string
	val  Value
	ev   EventRef
}

func (e *Env) With(n string, v Value) *Env         { return &Env{up: e, name: n, val: v} }
func (e *Env) WithEvent(n string, v EventRef) *Env { return &Env{up: e, name: n, ev: v} }

func (e *Env) find(n string) *Env {
	for x := e; x != nil; x = x.up {
		if x.name == n {
			return x
		}
	}
	return nil
}

// Eval evaluates e.
func (s *Set) Eval(b Backend, env *Env, e *Expr) (Value, error) {
	v, err := s.eval(b, env, e)
	if err != nil {
		if _, ok := err.(*EvalErr); ok {
			return nil, err
		}
		return nil, &EvalErr{fmt.Errorf("line %d: %s: %v", e.Line, clip(e.String()), err)}
	}
	return v, nil
}

// EvalErr is an evaluation error with its position.
type EvalErr struct{ Err error }

func (e *EvalErr) Error() string { return e.Err.Error() }

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

func (s *Set) konst(b Backend, v Value) (bool, bool) {
	if cb, ok := b.(ConstBool); ok {
		return cb.IsConst(v)
	}
	return false, false
}

func (s *Set) eval(b Backend, env *Env, e *Expr) (Value, error) {
	switch e.Op {
	case "str":
		return b.Str(e.Str), nil
	case "int":
		return b.Int(e.Int), nil
	case "bool":
		return b.Bool(e.Int == 1), nil
	case "nil":
		return b.Nil(), nil
	case "var":
		if x := env.find(e.Name); x != nil {
			if x.ev != nil {
				return x.ev, nil
			}
			return x.val, nil
		}
		if m := s.Macros[e.Name]; m != nil && len(m.Params) == 0 {
			return s.Eval(b, macroEnv(env), m.Body)
		}
		return b.Call(e.Name, nil)
	case "not":
		v, err := s.Eval(b, env, e.Args[0])
		if err != nil {
			return nil, err
		}
		return b.Not(v), nil
	case "neg":
		v, err := s.Eval(b, env, e.Args[0])
		if err != nil {
			return nil, err
		}
		return b.Bin("-", b.Int(0), v)
	case "bin":
		x, err := s.Eval(b, env, e.Args[0])
		if err != nil {
			return nil, err
		}
		if k, ok := s.konst(b, x); ok {
			switch {
			case e.Name == "&&" && !k, e.Name == "||" && k:
				return x, nil
			case e.Name == "==>" && !k:
				return b.Bool(true), nil
			}
		}
		y, err := s.Eval(b, env, e.Args[1])
		if err != nil {
			return nil, err
		}
		switch e.Name {
		case "&&":
			return b.And(x, y), nil
		case "||":
			return b.Or(x, y), nil
		case "==>":
			return b.Or(b.Not(x), y), nil
		case "<==>":
			return b.Bin("==", x, y)
		}
		if ex, ok := x.(EventRef); ok {
			if ey, ok := y.(EventRef); ok {
				switch e.Name {
				case "<":
					return b.Bool(ex.EvIndex() < ey.EvIndex()), nil
				case ">":
					return b.Bool(ex.EvIndex() > ey.EvIndex()), nil
				case "==":
					return b.Bool(ex.EvIndex() == ey.EvIndex()), nil
				case "!=":
					return b.Bool(ex.EvIndex() != ey.EvIndex()), nil
				}
			}
			return nil, fmt.Errorf("bad event comparison")
		}
		return b.Bin(e.Name, x, y)
	case "field":
		x, err := s.Eval(b, env, e.Args[0])
		if err != nil {
			return nil, err
		}
		if ev, ok := x.(EventRef); ok {
			return ev.EvField(e.Name)
		}
		return b.Field(x, e.Name)
	case "method":
		x, err := s.Eval(b, env, e.Args[0])
		if err != nil {
			return nil, err
		}
		as, err := s.evals(b, env, e.Args[1:])
		if err != nil {
			return nil, err
		}
		return b.Method(x, e.Name, as)
	case "call":
		if m := s.Macros[e.Name]; m != nil {
			if len(m.Params) != len(e.Args) {
				return nil, fmt.Errorf("macro %s wants %d args", m.Name, len(m.Params))
			}
			ne := macroEnv(env)
			for i, a := range e.Args {
				v, err := s.Eval(b, env, a)
				if err != nil {
					return nil, err
				}
				if ev, ok := v.(EventRef); ok {
					ne = ne.WithEvent(m.Params[i], ev)
				} else {
					ne = ne.With(m.Params[i], v)
				}
			}
			return s.Eval(b, ne, m.Body)
		}
		as, err := s.evals(b, env, e.Args)
		if err != nil {
			return nil, err
		}
		return b.Call(e.Name, as)
	case "if":
		c, err := s.Eval(b, env, e.Args[0])
		if err != nil {
			return nil, err
		}
		if k, ok := s.konst(b, c); ok {
			if k {
				return s.Eval(b, env, e.Args[1])
			}
			return s.Eval(b, env, e.Args[2])
		}
		x, err := s.Eval(b, env, e.Args[1])
		if err != nil {
			return nil, err
		}
		y, err := s.Eval(b, env, e.Args[2])
		if err != nil {
			return nil, err
		}
		return b.Ite(c, x, y)
	case "let":
		x, err := s.Eval(b, env, e.Args[0])
		if err != nil {
			return nil, err
		}
		return s.Eval(b, env.With(e.Name, x), e.Args[1])
	case "all", "some":
		acc := b.Bool(e.Op == "all")
		for _, ev := range b.Events() {
			if !hasName(e.Evs, ev.EvName()) {
				continue
			}
			g := ev.EvGuard()
			if k, ok := s.konst(b, g); ok && !k {
				continue
			}
			v, err := s.Eval(b, env.WithEvent(e.Name, ev), e.Args[0])
			if err != nil {
				return nil, err
			}
			if e.Op == "all" {
				acc = b.And(acc, b.Or(b.Not(g), v))
			} else {
				acc = b.Or(acc, b.And(g, v))
			}
		}
		return acc, nil
	case "forall", "exists":
		var lo, hi Value
		var err error
		body := e.Args[len(e.Args)-1]
		if len(e.Args) == 3 {
			if lo, err = s.Eval(b, env, e.Args[0]); err != nil {
				return nil, err
			}
			if hi, err = s.Eval(b, env, e.Args[1]); err != nil {
				return nil, err
			}
		}
		return b.Range(e.Op == "forall", e.Str, lo, hi, func(v Value) (Value, error) {
			return s.Eval(b, env.With(e.Name, v), body)
		})
	}
	return nil, fmt.Errorf("cannot evaluate %s", e.Op)
}

// macroEnv keeps the root bindings visible inside macros.
func macroEnv(env *Env) *Env { return env }

func hasName(ns []string, n string) bool {
	for _, x := range ns {
		if x == n {
			return true
		}
	}
	return false
}

func (s *Set) evals(b Backend, env *Env, es []*Expr) ([]Value, error) {
	var r []Value
	for _, e := range es {
		v, err := s.Eval(b, env, e)
		if err != nil {
			return nil, err
		}
		r = append(r, v)
	}
	return r, nil
}
