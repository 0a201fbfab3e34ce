package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// SEnv is the environment a specification expression is evaluated in.
type SEnv struct {
	vars  map[string]Val
	st    *State
	old   *State
	depth int
	pkg   string
	hwOld *Term // allocation mark of the pre-state
	phiOK bool
}

func (e *SEnv) with(n string, v Val) *SEnv {
	c := *e
	c.vars = make(map[string]Val, len(e.vars)+1)
	for k, w := range e.vars {
		c.vars[k] = w
	}
	c.vars[n] = v
	return &c
}

type specError struct{ msg string }

func (x *Exec) serr(f string, a ...any) { panic(specError{fmt.Sprintf(f, a...)}) }

func boolVal(t *Term) Val          { return Val{t: types.Typ[types.Bool], l: []*Term{t}} }
func (x *Exec) intVal(t *Term) Val { return Val{t: types.Typ[types.Int], l: []*Term{t}} }

func (x *Exec) evBool(e ast.Expr, env *SEnv) *Term {
	v := x.ev(e, env)
	if len(v.l) != 1 || v.l[0].sort != "Bool" {
		x.serr("not boolean: %s", exprStr(e))
	}
	return v.l[0]
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (x *Exec) resolveType(e ast.Expr, pkg string) types.Type {
	switch t := e.(type) {
	case *ast.StarExpr:
		return types.NewPointer(x.resolveType(t.X, pkg))
	case *ast.ArrayType:
		if t.Len == nil {
			return types.NewSlice(x.resolveType(t.Elt, pkg))
		}
		n, _ := strconv.Atoi(t.Len.(*ast.BasicLit).Value)
		return types.NewArray(x.resolveType(t.Elt, pkg), int64(n))
	case *ast.MapType:
		return types.NewMap(x.resolveType(t.Key, pkg), x.resolveType(t.Value, pkg))
	case *ast.Ident:
		if t.Name == "any" {
			return types.NewInterfaceType(nil, nil)
		}
		if o := types.Universe.Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		p := x.v.pkgs[pkg]
		if p == nil {
			x.serr("package %s not loaded", pkg)
		}
		o := p.Scope().Lookup(t.Name)
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
		if t.Name == "T" {
			return x.v.anyT
		}
		x.serr("unknown type %s in %s", t.Name, pkg)
	case *ast.SelectorExpr:
		a := t.X.(*ast.Ident).Name
		path, ok := x.v.spec.imports[a]
		if !ok {
			x.serr("unknown import %s", a)
		}
		p := x.v.pkgs[path]
		if p == nil {
			x.serr("package %s not loaded", path)
		}
		if tn, ok := p.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
			return tn.Type()
		}
		x.serr("unknown type %s.%s", a, t.Sel.Name)
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.ParenExpr:
		return x.resolveType(t.X, pkg)
	}
	x.serr("cannot resolve type %s", exprStr(e))
	return nil
}

func (x *Exec) parseType(s, pkg string) types.Type {
	e, err := parseExprCached(s)
	if err != nil {
		x.serr("type %q: %v", s, err)
	}
	return x.resolveType(e, pkg)
}

func (x *Exec) ev(e ast.Expr, env *SEnv) Val {
	b := x.b
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.ev(e.X, env)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			c := constant.MakeFromLiteral(e.Value, token.INT, 0)
			n, _ := constant.Int64Val(c)
			return Val{t: types.Typ[types.UntypedInt], l: []*Term{b.Int(n)}}
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return Val{t: types.Typ[types.String], l: []*Term{x.strLit(s)}}
		}
	case *ast.Ident:
		if v, ok := env.vars[e.Name]; ok {
			return v
		}
		switch e.Name {
		case "true":
			return boolVal(b.True)
		case "false":
			return boolVal(b.False)
		case "nil":
			return Val{t: types.Typ[types.UntypedNil], l: []*Term{b.Int(0)}}
		}
		if p := x.v.pkgs[env.pkg]; p != nil {
			if o, ok := p.Scope().Lookup(e.Name).(*types.Var); ok {
				return x.specGlobal(o, env)
			}
			if o, ok := p.Scope().Lookup(e.Name).(*types.Const); ok {
				return x.constVal(o.Val(), o.Type())
			}
		}
		x.serr("unknown name %s", e.Name)
	case *ast.UnaryExpr:
		v := x.ev(e.X, env)
		switch e.Op {
		case token.NOT:
			return boolVal(b.Not(v.l[0]))
		case token.SUB:
			return Val{t: v.t, l: []*Term{b.Sub(b.Int(0), v.l[0])}}
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return boolVal(b.And(x.evBool(e.X, env), x.evBool(e.Y, env)))
		case token.LOR:
			return boolVal(b.Or(x.evBool(e.X, env), x.evBool(e.Y, env)))
		}
		l, r := x.ev(e.X, env), x.ev(e.Y, env)
		switch e.Op {
		case token.EQL:
			return boolVal(x.valEq(l, r))
		case token.NEQ:
			return boolVal(b.Not(x.valEq(l, r)))
		case token.LSS:
			return boolVal(b.Lt(l.l[0], r.l[0]))
		case token.LEQ:
			return boolVal(b.Le(l.l[0], r.l[0]))
		case token.GTR:
			return boolVal(b.Lt(r.l[0], l.l[0]))
		case token.GEQ:
			return boolVal(b.Le(r.l[0], l.l[0]))
		case token.ADD:
			if l.l[0].sort == "Str" {
				return Val{t: l.t, l: []*Term{x.strcat(l.l[0], r.l[0])}}
			}
			return x.intVal(b.Add(l.l[0], r.l[0]))
		case token.SUB:
			return x.intVal(b.Sub(l.l[0], r.l[0]))
		case token.MUL:
			return x.intVal(b.Mul(l.l[0], r.l[0]))
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, isVar := env.vars[id.Name]; !isVar {
				if path, ok := x.v.spec.imports[id.Name]; ok {
					p := x.v.pkgs[path]
					if p == nil {
						x.serr("package %s not loaded", path)
					}
					switch o := p.Scope().Lookup(e.Sel.Name).(type) {
					case *types.Var:
						return x.specGlobal(o, env)
					case *types.Const:
						return x.constVal(o.Val(), o.Type())
					}
					x.serr("unknown %s.%s", id.Name, e.Sel.Name)
				}
			}
		}
		v := x.ev(e.X, env)
		return x.specField(v, e.Sel.Name, env)
	case *ast.IndexExpr:
		v := x.ev(e.X, env)
		i := x.ev(e.Index, env)
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			return x.sliceElem(env.st, v, i.l[0])
		case *types.Array:
			if i.l[0].op != "int" {
				x.serr("non-constant array index")
			}
			n := nleaves(u.Elem())
			k := int(i.l[0].big.Int64())
			return Val{t: u.Elem(), l: v.l[k*n : (k+1)*n]}
		case *types.Map:
			k := x.coerce(i, u.Key())
			has := x.mapHas(env.st, v, k)
			raw := x.mapGet(env.st, v, k)
			z := x.zero(raw.t)
			out := Val{t: raw.t}
			for q := range raw.l {
				out.l = append(out.l, x.b.Ite(has, raw.l[q], z.l[q]))
			}
			return out
		}
		x.serr("cannot index %s of type %v", exprStr(e.X), v.t)
	case *ast.CallExpr:
		return x.evCall(e, env)
	case *ast.CompositeLit:
		t := x.resolveType(e.Type, env.pkg)
		v := x.zero(t)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for _, el := range e.Elts {
				kv := el.(*ast.KeyValueExpr)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == kv.Key.(*ast.Ident).Name {
						off, ft := fieldOff(u, i)
						fv := x.coerce(x.ev(kv.Value, env), ft)
						copy(v.l[off:], fv.l)
					}
				}
			}
		case *types.Array:
			n := nleaves(u.Elem())
			for i, el := range e.Elts {
				fv := x.coerce(x.ev(el, env), u.Elem())
				copy(v.l[i*n:], fv.l)
			}
		}
		return v
	}
	x.serr("cannot evaluate %s (%T)", exprStr(e), e)
	return Val{}
}

func (x *Exec) constVal(c constant.Value, t types.Type) Val {
	switch c.Kind() {
	case constant.Int:
		n, _ := constant.Int64Val(c)
		return Val{t: t, l: []*Term{x.b.Int(n)}}
	case constant.String:
		return Val{t: t, l: []*Term{x.strLit(constant.StringVal(c))}}
	case constant.Bool:
		return Val{t: t, l: []*Term{x.b.Bool(constant.BoolVal(c))}}
	}
	x.serr("constant %v", c)
	return Val{}
}

func (x *Exec) specGlobal(o *types.Var, env *SEnv) Val {
	g := x.v.globalOf(o)
	if g == nil {
		return x.extGlobal(o.Pkg().Path()+"."+o.Name(), o.Type())
	}
	return x.globalVal(env.st, g)
}

// coerce adapts untyped nil and concrete values to a target type.
func (x *Exec) coerce(v Val, t types.Type) Val {
	if bt, ok := v.t.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
		return x.zero(t)
	}
	_, toI := t.Underlying().(*types.Interface)
	_, tp := types.Unalias(t).(*types.TypeParam)
	_, fromI := v.t.Underlying().(*types.Interface)
	_, ftp := types.Unalias(v.t).(*types.TypeParam)
	if toI && !tp && (!fromI || ftp) {
		return Val{t: t, l: x.box(nil, v)}
	}
	return Val{t: t, l: v.l, arr: v.arr}
}

func isIfaceT(t types.Type) bool {
	if _, tp := types.Unalias(t).(*types.TypeParam); tp {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isUntypedNil(t types.Type) bool {
	bt, ok := t.(*types.Basic)
	return ok && bt.Kind() == types.UntypedNil
}

func (x *Exec) valEq(l, r Val) *Term {
	b := x.b
	if isUntypedNil(l.t) {
		l, r = r, l
	}
	if isUntypedNil(r.t) {
		if isUntypedNil(l.t) {
			return b.True
		}
		if _, ok := l.t.Underlying().(*types.Slice); ok && len(l.l) == 4 {
			return b.And(b.Eq(l.l[0], b.Int(0)), b.Eq(l.l[2], b.Int(0)), b.Eq(l.l[3], b.Int(0)))
		}
		return b.Eq(l.l[0], b.Int(0))
	}
	if isIfaceT(l.t) && !isIfaceT(r.t) {
		r = Val{t: l.t, l: x.box(nil, r)}
	} else if isIfaceT(r.t) && !isIfaceT(l.t) {
		l = Val{t: r.t, l: x.box(nil, l)}
	}
	if len(l.l) != len(r.l) {
		x.serr("comparing %v and %v", l.t, r.t)
	}
	var cs []*Term
	for i := range l.l {
		cs = append(cs, b.Eq(l.l[i], r.l[i]))
	}
	return b.And(cs...)
}

func (x *Exec) specField(v Val, name string, env *SEnv) Val {
	t := v.t
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	} else if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
	}
	o, path, _ := types.LookupFieldOrMethod(originPtr(t), true, pkg, name)
	fv, ok := o.(*types.Var)
	if !ok {
		x.serr("no field %s in %v", name, t)
	}
	_ = fv
	cur := Val{t: originPtr(t), l: v.l}
	for _, i := range path {
		ct := cur.t
		if et := deref(ct); et != nil {
			et = originType(et)
			st, ok := et.Underlying().(*types.Struct)
			if !ok {
				x.serr("field path through %v", et)
			}
			off, ft := fieldOff(st, i)
			nv := Val{t: ft}
			if lc := x.locs[cur.l[0]]; lc != nil {
				whole := x.load(env.st, cur.l[0], et)
				nv.l = append(nv.l, whole.l[off:off+nleaves(ft)]...)
				cur = nv
				continue
			}
			if isRepoStruct(et) {
				for k := 0; k < nleaves(ft); k++ {
					key, lf := structLeafKey(et, off+k)
					nv.l = append(nv.l, x.rd1(env.st, key, lf, cur.l[0]))
				}
			} else {
				x.serr("field of opaque struct %v", et)
			}
			cur = nv
			continue
		}
		st, ok := ct.Underlying().(*types.Struct)
		if !ok {
			x.serr("field path through %v", ct)
		}
		off, ft := fieldOff(st, i)
		cur = Val{t: ft, l: cur.l[off : off+nleaves(ft)]}
	}
	return cur
}

func originPtr(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return types.NewPointer(originType(p.Elem()))
	}
	return originType(t)
}

func (x *Exec) evArgs(es []ast.Expr, env *SEnv) []Val {
	var out []Val
	for _, e := range es {
		out = append(out, x.ev(e, env))
	}
	return out
}

func (x *Exec) evCall(e *ast.CallExpr, env *SEnv) Val {
	b := x.b
	if id, ok := e.Fun.(*ast.Ident); ok {
		a := e.Args
		switch id.Name {
		case "old":
			ne := *env
			ne.st = env.old
			return x.ev(a[0], &ne)
		case "forall", "exists", "forallm", "existsm":
			n := a[0].(*ast.Ident).Name
			if len(a) == 3 { // forall(x, T, body)
				t := x.resolveType(a[1], env.pkg)
				v := Val{t: t}
				var vars []*Term
				var rng []*Term
				for i, lf := range leavesOf(t) {
					bv := b.BV(fmt.Sprintf("%s.%d", n, i), env.depth, lf.sort)
					vars = append(vars, bv)
					if lf.kind == "uint" {
						rng = append(rng, b.Le(b.Int(0), bv))
					}
				}
				v.l = vars
				ne := env.with(n, v)
				ne.depth++
				body := x.evBool(a[2], ne)
				if id.Name == "forall" {
					return boolVal(b.Forall(vars, b.Implies(b.And(rng...), body)))
				}
				return boolVal(b.Exists(vars, b.And(b.And(rng...), body)))
			}
			lo, hi := x.ev(a[1], env), x.ev(a[2], env)
			bv := b.BV(n, env.depth, "Int")
			ne := env.with(n, x.intVal(bv))
			ne.depth++
			body := x.evBool(a[3], ne)
			rng := b.And(b.Le(lo.l[0], bv), b.Lt(bv, hi.l[0]))
			switch m := b.UF("mark", "Bool", bv); id.Name {
			case "forall":
				return boolVal(b.Forall([]*Term{bv}, b.Implies(rng, body)))
			case "forallm": // as forall, but used only at marked positions: those of goals and of existsm
				return boolVal(b.Forall([]*Term{bv}, b.Implies(b.And(m, rng), body), m))
			case "existsm":
				return boolVal(b.Exists([]*Term{bv}, b.And(m, rng, body)))
			}
			return boolVal(b.Exists([]*Term{bv}, b.And(rng, body)))
		case "let": // let(n, e, body)
			ne := env.with(a[0].(*ast.Ident).Name, x.ev(a[1], env))
			return x.ev(a[2], ne)
		case "implies":
			return boolVal(b.Implies(x.evBool(a[0], env), x.evBool(a[1], env)))
		case "iff":
			return boolVal(b.Iff(x.evBool(a[0], env), x.evBool(a[1], env)))
		case "ite":
			c := x.evBool(a[0], env)
			l, r := x.ev(a[1], env), x.ev(a[2], env)
			if isUntypedNil(l.t) {
				l = x.coerce(l, r.t)
			} else {
				r = x.coerce(r, l.t)
			}
			v := Val{t: l.t}
			for i := range l.l {
				v.l = append(v.l, b.Ite(c, l.l[i], r.l[i]))
			}
			return v
		case "fresh":
			v := x.ev(a[0], env)
			return boolVal(b.And(b.Lt(env.hwOld, v.l[0]), b.Le(v.l[0], env.st.hw)))
		case "allocated":
			v := x.ev(a[0], env)
			r := v.l[0]
			if lc := x.locs[r]; lc != nil {
				// an interior pointer is as allocated as what it points into
				if lc.kind == "global" {
					return boolVal(b.True)
				}
				r = lc.ref
			}
			return boolVal(b.And(b.Lt(b.Int(0), r), b.Le(r, env.st.hw)))
		case "len":
			v := x.ev(a[0], env)
			switch v.t.Underlying().(type) {
			case *types.Slice:
				return x.intVal(v.l[2])
			case *types.Map:
				return x.intVal(x.mapCard(env.st, v))
			case *types.Basic:
				return x.intVal(b.UF("strlen", "Int", v.l[0]))
			}
			x.serr("len of %v", v.t)
		case "cap":
			return x.intVal(x.ev(a[0], env).l[3])
		case "baseof":
			return x.intVal(x.ev(a[0], env).l[0])
		case "has":
			m := x.ev(a[0], env)
			k := x.ev(a[1], env)
			return boolVal(x.mapHas(env.st, m, x.coerce(k, m.t.Underlying().(*types.Map).Key())))
		case "sv":
			l, r := x.ev(a[0], env), x.ev(a[1], env)
			return Val{t: x.v.svType(), l: []*Term{l.l[0], r.l[0]}}
		case "typeis":
			v := x.ev(a[0], env)
			t := x.resolveType(a[1], env.pkg)
			if isIfaceT(t) {
				return boolVal(x.implTerm(t, v.l[0]))
			}
			return boolVal(b.Eq(v.l[0], x.typeTag(t)))
		case "as":
			v := x.ev(a[0], env)
			t := x.resolveType(a[1], env.pkg)
			if isIfaceT(t) {
				return Val{t: t, l: v.l}
			}
			return x.unbox(v.l[1], t)
		case "conv":
			return Val{t: x.resolveType(a[1], env.pkg), l: x.ev(a[0], env).l}
		case "errIs":
			et := types.Universe.Lookup("error").Type()
			l, r := x.coerce(x.ev(a[0], env), et), x.coerce(x.ev(a[1], env), et)
			return boolVal(b.UF("errIs", "Bool", l.l[0], l.l[1], r.l[0], r.l[1]))
		case "res":
			i := int(x.ev(a[0], env).l[0].big.Int64())
			v := x.ev(a[1], env)
			tup, ok := v.t.(*types.Tuple)
			if !ok {
				x.serr("res of non-tuple")
			}
			off := 0
			for k := 0; k < i; k++ {
				off += nleaves(tup.At(k).Type())
			}
			t := tup.At(i).Type()
			rv := Val{t: t, l: v.l[off : off+nleaves(t)]}
			if v.arr != nil {
				if _, sl := t.Underlying().(*types.Slice); sl {
					rv.arr = v.arr
				}
			}
			return rv
		case "lockR", "lockW":
			v := x.ev(a[0], env)
			return x.intVal(x.rd1(env.st, "L:"+id.Name, Leaf{sort: "Int", kind: "int"}, v.l[0]))
		case "rec":
			// rec(name, what[, index])
			return x.recRead(env, a[0].(*ast.Ident).Name, a[1].(*ast.Ident).Name, func() *Term {
				if len(a) > 2 {
					return x.ev(a[2], env).l[0]
				}
				return b.Int(0)
			}())
		case "ptr": // ptr(T, n): the reference n as a value of pointer type T
			return Val{t: x.resolveType(a[0], env.pkg), l: x.ev(a[1], env).l[:1]}
		case "recsame": // no call was recorded since the start
			var eqs []*Term
			for _, k := range x.recKeys(a[0].(*ast.Ident).Name) {
				eqs = append(eqs, b.Eq(x.H(env.st, k.key, k.info.sort, k.info.lf), x.H(env.old, k.key, k.info.sort, k.info.lf)))
			}
			return boolVal(b.And(eqs...))
		case "decoded": // decoded(v, T): the value (cue.Value).Decode produces
			v := x.ev(a[0], env)
			return x.decoded(v, x.resolveType(a[1], env.pkg))
		case "decodeErr": // decodeErr(v, T): the error of decoding v into a T
			v := x.ev(a[0], env)
			return x.decodeErr(v, x.resolveType(a[1], env.pkg))
		case "decodedinto": // decodedinto(s, v): the slice s holds what decoding v produced
			return boolVal(x.decodedInto(env.st, x.ev(a[0], env), x.ev(a[1], env)))
		case "zero":
			return x.zero(x.resolveType(a[0], env.pkg))
		case "selat": // selat(p, i): selector i of the cue.Path p
			return Val{t: x.parseType("cue.Selector", env.pkg), l: []*Term{b.Select(b.UF("selarr", arrSort("Int", "U"), x.ev(a[0], env).l[0]), x.ev(a[1], env).l[0])}}
		case "itpos":
			return x.intVal(x.ev(a[0], env).l[1])
		case "itlist":
			return Val{t: x.uT(), l: x.ev(a[0], env).l[:1]}
		case "hidden": // trigger marker, always true
			return boolVal(b.True)
		}
		if p := x.v.spec.preds[id.Name]; p != nil {
			args := x.evArgs(a, env)
			if len(args) != len(p.params) {
				x.serr("%s: %d arguments", p.name, len(args))
			}
			ne := &SEnv{vars: map[string]Val{}, st: env.st, old: env.old, depth: env.depth, pkg: p.pkg, hwOld: env.hwOld}
			for i, pr := range p.params {
				ne.vars[pr.name] = x.coerce(args[i], x.parseType(pr.typ, p.pkg))
			}
			v := x.ev(p.body, ne)
			if p.ret != "" && p.ret != "bool" {
				v = x.coerce(v, x.parseType(p.ret, p.pkg))
			}
			return v
		}
		if g := x.v.spec.ghosts[id.Name]; g != nil {
			args := x.evArgs(a, env)
			var ls []*Term
			for i, v := range args {
				ls = append(ls, x.coerce(v, x.parseType(g.params[i], g.pkg)).l...)
			}
			rt := x.parseType(g.ret, g.pkg)
			v := Val{t: rt}
			for i, lf := range leavesOf(rt) {
				n := g.name
				if i > 0 {
					n += fmt.Sprintf("#%d", i)
				}
				v.l = append(v.l, b.UF("ghost:"+n, lf.sort, ls...))
			}
			return v
		}
		// a function of the package, if it is a declared pure extern
		if p := x.v.pkgs[env.pkg]; p != nil {
			if f, ok := p.Scope().Lookup(id.Name).(*types.Func); ok {
				return x.specPure(f, x.evArgs(a, env), env)
			}
		}
		x.serr("unknown function %s", id.Name)
	}
	if sel, ok := e.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, isVar := env.vars[id.Name]; !isVar {
				if path, ok := x.v.spec.imports[id.Name]; ok {
					p := x.v.pkgs[path]
					if p == nil {
						x.serr("package %s not loaded", path)
					}
					f, ok := p.Scope().Lookup(sel.Sel.Name).(*types.Func)
					if !ok {
						x.serr("unknown function %s", exprStr(e.Fun))
					}
					return x.specPure(f, x.evArgs(e.Args, env), env)
				}
			}
		}
		recv := x.ev(sel.X, env)
		o, path, ind := types.LookupFieldOrMethod(recv.t, true, nil, sel.Sel.Name)
		_ = ind
		if o == nil {
			if n, ok := types.Unalias(recv.t).(*types.Named); ok {
				o, path, _ = types.LookupFieldOrMethod(recv.t, true, n.Obj().Pkg(), sel.Sel.Name)
			}
		}
		f, ok := o.(*types.Func)
		if !ok {
			x.serr("no method %s on %v", sel.Sel.Name, recv.t)
		}
		if len(path) > 1 {
			x.serr("promoted method %s", sel.Sel.Name)
		}
		return x.specPure(f, append([]Val{recv}, x.evArgs(e.Args, env)...), env)
	}
	x.serr("cannot evaluate call %s", exprStr(e))
	return Val{}
}

// specPure applies a pure external function in a specification.
func (x *Exec) specPure(f *types.Func, args []Val, env *SEnv) Val {
	key := stripTypeArgs(f.FullName())
	ex := x.v.spec.externs[key]
	if ex == nil || !ex.pure {
		x.serr("%s is not a declared pure extern", key)
	}
	sig := f.Type().(*types.Signature)
	np := sig.Params().Len()
	var fixed []Val
	off := 0
	if sig.Recv() != nil {
		fixed = append(fixed, args[0])
		off = 1
	}
	var vari []Val
	variadic := sig.Variadic()
	for i := off; i < len(args); i++ {
		pi := i - off
		if variadic && pi >= np-1 {
			vari = append(vari, x.coerce(args[i], sig.Params().At(np-1).Type().(*types.Slice).Elem()))
		} else {
			fixed = append(fixed, x.coerce(args[i], sig.Params().At(pi).Type()))
		}
	}
	for i := range fixed {
		fixed[i] = x.byContent(env.st, fixed[i])
	}
	return x.pureApp(key, sig, fixed, vari, variadic)
}

// pureApp builds the uninterpreted result of a pure function.
func (x *Exec) pureApp(key string, sig *types.Signature, fixed, vari []Val, variadic bool) Val {
	b := x.b
	var ls []*Term
	for _, v := range fixed {
		ls = append(ls, v.l...)
	}
	n := strings.ReplaceAll(key, repoPath, "thema")
	if variadic {
		n += fmt.Sprintf("$%d", len(vari))
		for _, v := range vari {
			ls = append(ls, v.l...)
		}
	}
	rt := sig.Results()
	var t types.Type = rt
	if rt.Len() == 1 {
		t = rt.At(0).Type()
	}
	v := Val{t: t}
	i := 0
	for k := 0; k < rt.Len(); k++ {
		if sl, ok := rt.At(k).Type().Underlying().(*types.Slice); ok {
			ln := b.UF(fmt.Sprintf("%s#len%d", n, k), "Int", ls...)
			v.l = append(v.l, b.Int(0), b.Int(0), ln, ln)
			for q, lf := range leavesOf(sl.Elem()) {
				v.arr = append(v.arr, b.UF(fmt.Sprintf("%s#arr%d.%d", n, k, q), arrSort("Int", lf.sort), ls...))
			}
			i += 4
			continue
		}
		for _, lf := range leavesOf(rt.At(k).Type()) {
			v.l = append(v.l, b.UF(fmt.Sprintf("%s#%d", n, i), lf.sort, ls...))
			i++
		}
	}
	return v
}

func (x *Exec) decoded(v Val, t types.Type) Val {
	r := Val{t: t}
	for i, lf := range leavesOf(t) {
		r.l = append(r.l, x.b.UF(fmt.Sprintf("decode:%s#%d", typeKey(t), i), lf.sort, v.l...))
	}
	return r
}

func (x *Exec) decodeErr(v Val, t types.Type) Val {
	n := "decodeErr:" + typeKey(t)
	return Val{t: errT, l: []*Term{x.b.UF(n, "Int", v.l...), x.b.UF(n+"#1", "Int", v.l...)}}
}

// recorded calls

func (x *Exec) recRead(env *SEnv, name, what string, idx *Term) Val {
	ri := x.v.spec.records[name]
	if ri == nil {
		x.serr("unknown record %s", name)
	}
	intLf := Leaf{sort: "Int", kind: "int"}
	switch what {
	case "n", "prev", "seq":
		return x.intVal(x.rd1(env.st, "G:"+name+"."+what, intLf, idx))
	case "last", "total":
		return x.intVal(x.rd1(env.st, "G:"+name+"."+what, intLf, x.b.Int(0)))
	}
	get := func(pre string, i int, t types.Type) Val {
		v := Val{t: t}
		for k, lf := range leavesOf(t) {
			v.l = append(v.l, x.rd1(env.st, fmt.Sprintf("G:%s.%s%d#%d", name, pre, i, k), lf, idx))
		}
		return v
	}
	for i, n := range ri.an {
		if n == what {
			return get("arg", i, ri.args[i])
		}
	}
	for i, n := range ri.rn {
		if n == what {
			return get("ret", i, ri.rets[i])
		}
	}
	x.serr("record %s has no %s", name, what)
	return Val{}
}

func (x *Exec) recWrite(st *State, name string, idx *Term, args, rets []Val) {
	b := x.b
	intLf := Leaf{sort: "Int", kind: "int"}
	k := "G:" + name + "."
	x.wr1(st, k+"n", intLf, idx, b.AddK(x.rd1(st, k+"n", intLf, idx), 1))
	x.wr1(st, k+"prev", intLf, idx, x.rd1(st, k+"last", intLf, b.Int(0)))
	x.wr1(st, k+"last", intLf, b.Int(0), idx)
	tot := x.rd1(st, k+"total", intLf, b.Int(0))
	x.wr1(st, k+"seq", intLf, idx, tot)
	x.wr1(st, k+"total", intLf, b.Int(0), b.AddK(tot, 1))
	put := func(pre string, i int, v Val) {
		for q, lf := range leavesOf(v.t) {
			x.wr1(st, fmt.Sprintf("G:%s.%s%d#%d", name, pre, i, q), lf, idx, v.l[q])
		}
	}
	for i, v := range args {
		put("arg", i, v)
	}
	for i, v := range rets {
		put("ret", i, v)
	}
}

// implTerm: the dynamic type with this tag implements interface t.
func (x *Exec) implTerm(t types.Type, tag *Term) *Term {
	if tag.op == "int" {
		if dt := x.v.typeOfTag(int(tag.big.Int64())); dt != nil {
			it := t.Underlying().(*types.Interface)
			return x.b.Bool(types.Implements(dt, it))
		}
		return x.b.False
	}
	return x.b.And(x.b.Not(x.b.Eq(tag, x.b.Int(0))), x.b.UF("impl:"+typeKey(t), "Bool", tag))
}

// uT is the type specifications use for CUE list contents: one opaque leaf.
func (x *Exec) uT() types.Type {
	return x.v.pkgs["cuelang.org/go/cue"].Scope().Lookup("Value").Type()
}
