package main

import (
	"go/types"
	"math/big"
	"strings"
)

const repoPath = "github.com/grafana/thema"

// A Leaf is one SMT-sorted component of a Go value.
type Leaf struct {
	sort string
	kind string // int, uint, bool, str, u, ref, base, off, len, cap, tag, pay, pos
	bits int
	typ  types.Type
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == repoPath || strings.HasPrefix(p.Path(), repoPath+"/"))
}

func isIterator(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "cuelang.org/go/cue" && n.Obj().Name() == "Iterator"
}

// opaque reports whether values of t are a single uninterpreted leaf.
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, is := n.Underlying().(*types.Struct); !is {
		return false
	}
	return !isRepoPkg(n.Obj().Pkg())
}

type layoutCache struct{ m map[types.Type][]Leaf }

var maxU64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
var maxI64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))

func leavesOf(t types.Type) []Leaf {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return []Leaf{{sort: "U", kind: "u", typ: tp}}
	}
	if isIterator(t) {
		return []Leaf{{sort: "U", kind: "u", typ: t}, {sort: "Int", kind: "pos", typ: t}}
	}
	if opaqueStruct(t) {
		return []Leaf{{sort: "U", kind: "u", typ: t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		inf := u.Info()
		switch {
		case inf&types.IsInteger != 0:
			bits := 64
			switch u.Kind() {
			case types.Int8, types.Uint8:
				bits = 8
			case types.Int16, types.Uint16:
				bits = 16
			case types.Int32, types.Uint32:
				bits = 32
			}
			if inf&types.IsUnsigned != 0 {
				return []Leaf{{sort: "Int", kind: "uint", bits: bits, typ: t}}
			}
			return []Leaf{{sort: "Int", kind: "int", bits: bits, typ: t}}
		case inf&types.IsBoolean != 0:
			return []Leaf{{sort: "Bool", kind: "bool", typ: t}}
		case inf&types.IsString != 0:
			return []Leaf{{sort: "Str", kind: "str", typ: t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{sort: "Int", kind: "ref", typ: t}}
		}
		return []Leaf{{sort: "U", kind: "u", typ: t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{sort: "Int", kind: "ref", typ: t}}
	case *types.Slice:
		return []Leaf{{sort: "Int", kind: "base", typ: t}, {sort: "Int", kind: "off", typ: t}, {sort: "Int", kind: "len", typ: t}, {sort: "Int", kind: "cap", typ: t}}
	case *types.Interface:
		return []Leaf{{sort: "Int", kind: "tag", typ: t}, {sort: "Int", kind: "pay", typ: t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leavesOf(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		el := leavesOf(u.Elem())
		if int(u.Len())*len(el) > 64 {
			return []Leaf{{sort: "U", kind: "u", typ: t}}
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, el...)
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, leavesOf(u.At(i).Type())...)
		}
		return out
	}
	return []Leaf{{sort: "U", kind: "u", typ: t}}
}

func nleaves(t types.Type) int { return len(leavesOf(t)) }

// fieldOff gives the leaf offset and type of field i of a struct type.
func fieldOff(st *types.Struct, i int) (int, types.Type) {
	off := 0
	for j := 0; j < i; j++ {
		off += nleaves(st.Field(j).Type())
	}
	return off, st.Field(i).Type()
}

// typeKey names a type independently of type arguments.
func typeKey(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return shortPkg(o.Pkg().Path()) + "." + o.Name()
	case *types.TypeParam:
		return "T"
	case *types.Pointer:
		return "*" + typeKey(x.Elem())
	case *types.Slice:
		return "[]" + typeKey(x.Elem())
	case *types.Array:
		return "[n]" + typeKey(x.Elem())
	case *types.Map:
		return "map[" + typeKey(x.Key()) + "]" + typeKey(x.Elem())
	case *types.Signature:
		return "func"
	case *types.Basic:
		return x.Name()
	case *types.Interface:
		if x.Empty() {
			return "any"
		}
		return "iface" + types.TypeString(x, nil)
	case *types.Struct:
		s := "struct{"
		for i := 0; i < x.NumFields(); i++ {
			s += x.Field(i).Name() + " " + typeKey(x.Field(i).Type()) + ";"
		}
		return s + "}"
	}
	return types.TypeString(t, nil)
}

func shortPkg(p string) string {
	p = strings.TrimPrefix(p, "github.com/grafana/")
	p = strings.TrimPrefix(p, "cuelang.org/go/")
	return p
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// originNamed strips instantiation.
func originType(t types.Type) types.Type {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Origin()
	}
	return t
}
