package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/lyokato/goidc"

// Val is a Go value flattened to a vector of terms following the layout of its type.
type Val []*Term

// Leaf is one scalar component of a type.
type Leaf struct {
	path string
	sort *Sort
	typ  types.Type
}

var (
	leafCache = map[types.Type][]Leaf{}
	typeNames = map[types.Type]string{}
)

func typeName(t types.Type) string {
	if n, ok := typeNames[t]; ok {
		return n
	}
	n := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == repoPath {
			return "goidc"
		}
		return strings.TrimPrefix(p.Path(), repoPath+"/")
	})
	n = strings.ReplaceAll(n, "interface {}", "any")
	n = strings.ReplaceAll(n, "interface{}", "any")
	typeNames[t] = n
	return n
}

// opaque struct types are single reference-sorted scalars
func opaqueStruct(t types.Type) bool {
	switch typeName(t) {
	case "time.Time", "reflect.Value", "sync.Mutex", "sync.RWMutex", "sync.Once":
		return true
	}
	return false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func leavesOfType(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := leaves1(t)
	leafCache[t] = l
	return l
}

func leaves1(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []Leaf{{"", SFlt, t}}
		}
		return []Leaf{{"", SRef, t}}
	case *types.Slice:
		return []Leaf{{"#ref", SRef, t}, {"#off", SInt, t}, {"#len", SInt, t}}
	case *types.Array:
		if isByte(u.Elem()) {
			return []Leaf{{"", SStr, t}}
		}
		el := leavesOfType(u.Elem())
		var out []Leaf
		for _, e := range el {
			out = append(out, Leaf{"[]" + e.path, SArr(SInt, e.sort), e.typ})
		}
		return out
	case *types.Struct:
		if opaqueStruct(t) {
			return []Leaf{{"", SRef, t}}
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, e := range leavesOfType(f.Type()) {
				p := f.Name()
				if e.path != "" {
					p += "." + e.path
				}
				out = append(out, Leaf{p, e.sort, e.typ})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, e := range leavesOfType(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("%d.%s", i, e.path), e.sort, e.typ})
			}
		}
		return out
	}
	return []Leaf{{"", SRef, t}}
}

func zeroVal(t types.Type) Val {
	var v Val
	for _, l := range leavesOfType(t) {
		v = append(v, zeroOf(l.sort))
	}
	return v
}

// tupleRange gives the slice of leaves belonging to component i.
func tupleRange(t *types.Tuple, i int) (int, int) {
	lo := 0
	for k := 0; k < i; k++ {
		lo += len(leavesOfType(t.At(k).Type()))
	}
	return lo, lo + len(leavesOfType(t.At(i).Type()))
}

// fieldRange gives the leaves of field i in a struct.
func fieldRange(st *types.Struct, i int) (int, int) {
	lo := 0
	for k := 0; k < i; k++ {
		lo += len(leavesOfType(st.Field(k).Type()))
	}
	return lo, lo + len(leavesOfType(st.Field(i).Type()))
}

func iteVal(c *Term, a, b Val) Val {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	r := make(Val, len(a))
	for i := range a {
		r[i] = mkIte(c, a[i], b[i])
	}
	return r
}

func sameVal(a, b Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func freshVal(x *Exec, name string, t types.Type) Val {
	var v Val
	for _, l := range leavesOfType(t) {
		n := name
		if l.path != "" {
			n += "." + l.path
		}
		if strings.HasSuffix(l.path, "#off") {
			// a slice from outside is described by an array of its own, starting at 0
			v = append(v, mkInt(0))
			continue
		}
		v = append(v, mkConst(n, l.sort))
	}
	return v
}

// boxing of interface values

func boxVal(t types.Type, v Val) *Term {
	noteType(t)
	return mkBox(typeName(t), v)
}

func unboxVal(t types.Type, r *Term) Val {
	n := typeName(t)
	var v Val
	for i, l := range leavesOfType(t) {
		v = append(v, mkUnbox(n, i, l.sort, r))
	}
	return v
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// funcName is the contract-level name of a function: pkg.Func or pkg.Type.Method.
func funcName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typeName(t) + "." + f.Name()
	}
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return shortPkg(o.Pkg().Path()) + "." + f.Name()
		}
		return f.Name()
	}
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + f.Name()
	}
	return shortPkg(f.Pkg.Pkg.Path()) + "." + f.Name()
}

func shortPkg(p string) string {
	if p == repoPath {
		return "goidc"
	}
	return strings.TrimPrefix(p, repoPath+"/")
}
