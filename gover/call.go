package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callArgs(fr *frame, st *State, cc *ssa.CallCommon) (Val, []Val) {
	var fn Val
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fn = x.val(fr, st, cc.Value)
	}
	fn.t = cc.Value.Type()
	var args []Val
	for _, a := range cc.Args {
		v := x.val(fr, st, a)
		args = append(args, Val{t: a.Type(), l: v.l})
	}
	return fn, args
}

func one(st *State, rs ...Val) []Outcome { return []Outcome{{st: st, res: rs}} }

func (x *Exec) call(fr *frame, st *State, cc *ssa.CallCommon, fn Val, args []Val, site ssa.Instruction) []Outcome {
	if cc.IsInvoke() {
		return x.invoke(st, fn, cc.Method, args, site)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, cc, args, site)
	}
	if sc := cc.StaticCallee(); sc != nil {
		var bind []Val
		if f := x.funcs[fn.l[0]]; f != nil {
			bind = f.bind
		}
		return x.callStatic(st, sc, args, bind, site)
	}
	return x.callDyn(st, fn, args, site)
}

func stripTypeArgs(s string) string {
	// hiddenX is an alias the cue package uses to keep methods out of its documentation
	s = strings.Replace(s, "cuelang.org/go/cue.hidden", "cuelang.org/go/cue.", 1)
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			return s
		}
		d, j := 0, i
		for ; j < len(s); j++ {
			if s[j] == '[' {
				d++
			} else if s[j] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j >= len(s) {
			return s
		}
		s = s[:i] + s[j+1:]
	}
}

// fnKey names a function the way contracts do.
func fnKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Synthetic != "" && fn.Origin() == nil && !strings.HasPrefix(fn.Synthetic, "from ") {
		return ""
	}
	o, ok := fn.Object().(*types.Func)
	if !ok {
		return ""
	}
	return stripTypeArgs(o.FullName())
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, args, bind []Val, site ssa.Instruction) []Outcome {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	key := fnKey(fn)
	if key != "" {
		if c := x.v.spec.contracts[key]; c != nil && !c.iface {
			return x.applyContract(st, c, fn.Signature, args, site)
		}
		if c := x.v.implContract(key); c != nil && len(args) > 0 {
			// a method that implements a specified interface method
			recv := Val{t: x.v.ifaceType(c), l: x.box(st, args[0])}
			x.nilCheck(st, args[0], "nil receiver", site.Pos())
			return x.applyContract(st, c, fn.Signature, append([]Val{recv}, args[1:]...), site)
		}
		if m := specials[key]; m != nil {
			x.used["model "+key] = true
			return m(x, st, fn.Signature, args, site)
		}
	}
	p := fnPkg(fn)
	if ex := x.v.spec.externs[key]; key != "" && ex != nil {
		return x.extern(st, key, fn.Signature, args, site)
	}
	if len(fn.Blocks) > 0 && (isRepoPkg(p) || p == nil || fn.Synthetic != "") {
		if key != "" {
			x.inlined[key] = true
		}
		return x.callFunc(st, fn, args, bind)
	}
	if key == "" {
		key = fn.String()
	}
	return x.extern(st, key, fn.Signature, args, site)
}

// invoke calls a method through an interface value.
func (x *Exec) invoke(st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	tag := recv.l[0]
	if tag.op != "int" {
		for k := 1; k < x.v.ntags(); k++ {
			if st.facts[b.Eq(tag, b.Int(int64(k)))] {
				tag = b.Int(int64(k))
				break
			}
		}
	}
	if tag.op == "int" {
		if tag.big.Sign() == 0 {
			x.safety(st, b.False, "method call on nil interface "+m.Name(), site.Pos())
			return nil
		}
		if c := x.ifaceContract(recv.t, m); c != nil {
			if dt := x.v.typeOfTag(int(tag.big.Int64())); dt != nil && c.hasImpl(dt) {
				return x.applyContract(st, c, m.Type().(*types.Signature), append([]Val{recv}, args...), site)
			}
		}
		dt := x.v.typeOfTag(int(tag.big.Int64()))
		if dt != nil {
			mf := x.v.method(dt, m)
			if mf != nil && (len(mf.Blocks) > 0 || mf.Synthetic != "") && x.typeIsRepo(dt) {
				rv := x.unbox(recv.l[1], dt)
				return x.callStatic(st, mf, append([]Val{rv}, args...), nil, site)
			}
		}
	}
	x.safety(st, b.Not(b.Eq(tag, b.Int(0))), "method call on nil interface "+m.Name(), site.Pos())
	all := append([]Val{recv}, args...)
	if c := x.ifaceContract(recv.t, m); c != nil {
		return x.applyContract(st, c, m.Type().(*types.Signature), all, site)
	}
	return x.extern(st, stripTypeArgs(m.FullName()), m.Type().(*types.Signature), all, site)
}

func (c *Contract) hasImpl(t types.Type) bool {
	star := ""
	if p, ok := t.(*types.Pointer); ok {
		star = "*"
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	for _, i := range c.impls {
		if i == star+n.Obj().Name() && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == c.pkg {
			return true
		}
	}
	return false
}

// implContract: the interface contract a concrete method is verified against.
func (v *Verifier) implContract(key string) *Contract {
	v.implOnce.Do(func() {
		v.impls = map[string]*Contract{}
		for _, c := range v.spec.order {
			if !c.iface {
				continue
			}
			m := c.key[strings.LastIndexByte(c.key, '.')+1:]
			for _, i := range c.impls {
				k := "(" + c.pkg + "." + i + ")." + m
				if strings.HasPrefix(i, "*") {
					k = "(*" + c.pkg + "." + i[1:] + ")." + m
				}
				if v.impls[k] == nil {
					v.impls[k] = c
				}
			}
		}
	})
	return v.impls[key]
}

func (x *Exec) typeIsRepo(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && isRepoPkg(n.Obj().Pkg())
}

// ifaceContract looks for the method's contract on the static interface type,
// then on the interfaces it embeds.
func (x *Exec) ifaceContract(t types.Type, m *types.Func) *Contract {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			if c := x.v.spec.contracts["("+n.Obj().Pkg().Path()+"."+n.Obj().Name()+")."+m.Name()]; c != nil && c.iface {
				return c
			}
		}
		if it, ok := n.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				if c := x.ifaceContract(it.EmbeddedType(i), m); c != nil {
					return c
				}
			}
		}
	}
	if c := x.v.spec.contracts[stripTypeArgs(m.FullName())]; c != nil && c.iface {
		return c
	}
	return nil
}

func (x *Exec) callDyn(st *State, fn Val, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	t := fn.l[0]
	sig := fn.t.Underlying().(*types.Signature)
	if f := x.funcs[t]; f != nil {
		if f.fn != nil {
			return x.callStatic(st, f.fn, args, f.bind, site)
		}
		return x.applyClosure(st, f.clo, f.cenv, sig, args, site)
	}
	x.safety(st, b.Not(b.Eq(t, b.Int(0))), "call of nil function", site.Pos())
	if o := x.forigin[t]; o != "" {
		if c := x.v.spec.funcflds[o]; c != nil {
			env := map[string]Val{"self": fn}
			if ow, ok := x.fowner[t]; ok {
				env["owner"] = ow
			}
			return x.applyClosure(st, c, env, sig, args, site)
		}
	}
	if c := x.v.spec.funcflds[typeKey(fn.t)]; c != nil {
		return x.applyClosure(st, c, map[string]Val{"self": fn}, sig, args, site)
	}
	x.used["unspecified function value "+typeKey(fn.t)+" in "+x.rootName] = true
	return x.havocCall(st, "dyn", sig, args)
}

// havocCall: arbitrary results; memory reachable from repository types is
// assumed untouched except through pointer arguments.
func (x *Exec) havocCall(st *State, name string, sig *types.Signature, args []Val) []Outcome {
	nhw := x.b.Fresh("hw", "Int")
	x.fact(st, x.b.Le(st.hw, nhw))
	st.hw = nhw
	for _, a := range args {
		x.havocPointee(st, a)
	}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVal(st, fmt.Sprintf("%s.r%d", name, i), sig.Results().At(i).Type()))
	}
	return one(st, rs...)
}

func (x *Exec) havocPointee(st *State, a Val) {
	if len(a.l) == 0 || a.t == nil {
		return
	}
	if isIfaceT(a.t) {
		if a.l[0].op == "int" {
			if dt := x.v.typeOfTag(int(a.l[0].big.Int64())); dt != nil && isPtrLike(dt) {
				x.havocPointee(st, Val{t: dt, l: a.l[1:2]})
			}
		}
		return
	}
	et := deref(a.t)
	if et == nil || a.l[0].op == "int" {
		return
	}
	if _, tp := types.Unalias(et).(*types.TypeParam); tp && x.locs[a.l[0]] == nil {
		x.store(st, a.l[0], x.freshVal(st, "out", et))
		return
	}
	if lc := x.locs[a.l[0]]; lc != nil && lc.kind == "global" {
		return
	}
	if opaqueStruct(et) && x.locs[a.l[0]] == nil {
		// an opaque object: only the value seen by copying it
		x.store(st, a.l[0], x.freshVal(st, "out", et))
		return
	}
	x.store(st, a.l[0], x.freshVal(st, "out", et))
}

// --- contract application

func (x *Exec) bindEnv(c *Contract, args []Val, st *State) *SEnv {
	env := &SEnv{vars: map[string]Val{}, st: st, old: st, pkg: c.pkg, hwOld: st.hw}
	i := 0
	if c.recv != "" {
		env.vars[c.recv] = args[0]
		i = 1
	}
	if len(args)-i != len(c.params) {
		x.serr("%s: contract has %d parameters, code has %d", c.key, len(c.params), len(args)-i)
	}
	for k, p := range c.params {
		env.vars[p] = args[i+k]
	}
	return env
}

func sigResults(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

func (x *Exec) applyContract(st *State, c *Contract, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	x.used["contract "+c.key] = true
	x.underLock(st, c.key, site)
	env := x.bindEnv(c, args, st)
	short := c.key[strings.LastIndexByte(c.key, '/')+1:]
	record := c.record
	if c.recFrom != "" && !(site.Parent().Package() != nil && site.Parent().Package().Pkg.Name() == c.recFrom) {
		record = ""
	}
	return x.applyClauses(st, short, c.clauses, c.results, c.closure, record, c.recIdx, env, sig, args, site, c.recv != "")
}

func (x *Exec) applyClosure(st *State, c *Closure, cenv map[string]Val, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	if c == nil {
		x.unsup("function value without contract")
	}
	x.used["funcvalue "+c.name] = true
	env := &SEnv{vars: map[string]Val{}, st: st, old: st, pkg: c.pkg, hwOld: st.hw}
	for k, v := range cenv {
		env.vars[k] = v
	}
	if len(args) != len(c.params) {
		x.serr("%s: contract has %d parameters, code has %d", c.name, len(c.params), len(args))
	}
	for i, p := range c.params {
		env.vars[p] = args[i]
	}
	return x.applyClauses(st, c.name, c.clauses, c.results, nil, c.record, c.recIdx, env, sig, args, site, false)
}

func (x *Exec) applyClauses(st *State, name string, clauses []*Clause, resNames []string, clo *Closure, record string, recIdx any, env *SEnv, sig *types.Signature, args []Val, site ssa.Instruction, hasRecv bool) []Outcome {
	b := x.b
	where := x.v.pos(site.Pos())
	var outs []Outcome
	for _, c := range clauses {
		if c.kind == "requires" && c.in(x.view) {
			g := x.evBool(c.expr, env)
			x.obligUnlessKnown(st, fmt.Sprintf("call of %s: %s (%s)", name, c.label, c.text), g, where)
			x.fact(st, g)
		}
	}
	// panics
	mayPanic := false
	for _, c := range clauses {
		if c.kind == "panics" && c.in(x.view) {
			mayPanic = true
			p := x.decided(st, x.evBool(c.expr, env))
			if p == b.False {
				continue
			}
			ps := st.clone()
			if p != b.True {
				x.branch(ps, p)
			}
			pv := x.freshVal(ps, "pv", types.NewInterfaceType(nil, nil))
			outs = append(outs, Outcome{st: ps, panicked: true, pval: pv})
			x.branch(st, b.Not(p))
		}
	}
	for _, c := range clauses {
		if c.kind == "maypanicif" && c.in(x.view) {
			if p := x.decided(st, x.evBool(c.expr, env)); p != b.False {
				ps := st.clone()
				x.branch(ps, b.And(p, b.Fresh("panics", "Bool")))
				outs = append(outs, Outcome{st: ps, panicked: true, pval: x.freshVal(ps, "pv", types.NewInterfaceType(nil, nil))})
			}
		}
	}
	_ = mayPanic
	if x.view == "P17" {
		for _, c := range clauses {
			if c.kind == "maypanic" {
				ps := st.clone()
				x.branch(ps, b.Fresh("panics", "Bool"))
				outs = append(outs, Outcome{st: ps, panicked: true, pval: x.freshVal(ps, "pv", types.NewInterfaceType(nil, nil))})
			}
		}
	}
	old := st.clone()
	env.old = old
	// effects; what is modified may come to refer to objects made meanwhile
	nhw := b.Fresh("hw", "Int")
	x.fact(st, b.Le(st.hw, nhw))
	st.hw = nhw
	for _, c := range clauses {
		if c.kind == "modifies" && c.in(x.view) {
			for _, it := range c.list {
				x.havocItem(st, old, it, env)
			}
		}
	}
	env.st = st
	var rs []Val
	for i, t := range sigResults(sig) {
		n := fmt.Sprintf("%s.r%d", name, i)
		if i < len(resNames) {
			n = name + "." + resNames[i]
		}
		r := x.freshVal(st, n, t)
		if clo != nil && clo.at == nil && i == 0 {
			f := &FuncV{clo: clo, cenv: map[string]Val{}, cst: old, origin: name}
			for k, v := range env.vars {
				f.cenv[k] = v
			}
			x.funcs[r.l[0]] = f
			x.fact(st, b.Lt(b.Int(0), r.l[0]))
		}
		rs = append(rs, r)
		if i < len(resNames) {
			env.vars[resNames[i]] = r
		}
	}
	x.smoke(st, "before "+name)
	for _, c := range clauses {
		if (c.kind == "ensures" || c.kind == "assumes") && c.in(x.view) {
			x.fact(st, x.evBool(c.expr, env))
		}
	}
	x.smoke(st, "after "+name)
	if record != "" {
		x.doRecord(st, record, recIdx, env, args, rs, hasRecv)
	}
	if x.dead(st) {
		return outs
	}
	return append(outs, Outcome{st: st, res: rs})
}

// smoke notes a point that should be reachable (only with GOVER_SMOKE set:
// a contract whose application makes a reachable point unreachable is contradictory).
func (x *Exec) smoke(st *State, what string) {
	if smoking && x.quiet == 0 {
		x.covers = append(x.covers, cover{name: what, pc: st.pc})
	}
}

var smoking = os.Getenv("GOVER_SMOKE") != ""

func (x *Exec) obligUnlessKnown(st *State, name string, g *Term, where string) {
	if x.decided(st, g) == x.b.True {
		if x.quiet == 0 {
			x.trivial++
		}
		return
	}
	x.oblig(st, name, g, where)
}

// havocItem forgets one item of a modifies clause:
//
//	p.f        a field of the object p refers to
//	elems(e)   the elements of a slice
//	map(e)     the contents of a map
//	rec:NAME   a call record
//	lock       the lock state
func (x *Exec) havocItem(st, old *State, it string, env *SEnv) {
	if strings.HasPrefix(it, "rec:") {
		n := it[4:]
		ri := x.v.spec.records[n]
		if ri == nil {
			x.serr("modifies %s: unknown record", it)
		}
		for _, k := range x.recKeys(n) {
			ki := k.info
			st.heap[k.key] = x.b.Fresh(k.key, ki.sort)
			x.keyMeta(k.key, ki.sort, ki.lf)
			x.noteWrite(k.key, x.b.Int(0))
		}
		return
	}
	if it == "lock" {
		for _, n := range []string{"L:lockR", "L:lockW"} {
			s := arrSort("Int", "Int")
			x.keyMeta(n, s, Leaf{sort: "Int", kind: "int"})
			st.heap[n] = x.b.Fresh(n, s)
		}
		return
	}
	for _, a := range x.itemAddrs(old, it, env) {
		x.keyMeta(a.key, a.sort, a.lf)
		H := x.H(st, a.key, a.sort, a.lf)
		nv := x.b.Fresh("mod:"+a.key, elemSort(a.sort))
		st.heap[a.key] = x.b.Store(H, a.ref, nv)
		x.noteWrite(a.key, a.ref)
		if elemSort(a.sort) == a.lf.sort && a.lf.typ != nil {
			x.typeFacts(st, Val{t: leafTypeOf(a.lf), l: []*Term{nv}})
		}
	}
	if strings.Contains(it, ".") && !strings.Contains(it, "(") {
		// whole-value facts for slices and interfaces
		e, _ := parseExprCached(it)
		ne := *env
		ne.st = st
		x.typeFacts(st, x.ev(e, &ne))
	}
}

func leafTypeOf(lf Leaf) types.Type {
	switch lf.kind {
	case "uint", "int", "bool", "str", "ref":
		return lf.typ
	}
	return types.Typ[types.Invalid]
}

type addr struct {
	key  string
	ref  *Term
	sort string
	lf   Leaf
}

// itemAddrs lists the heap addresses a modifies item covers.
func (x *Exec) itemAddrs(st *State, it string, env *SEnv) []addr {
	e, err := parseExprCached(it)
	if err != nil {
		x.serr("modifies %s: %v", it, err)
	}
	var out []addr
	if fn, arg, ok := callOf(e); ok {
		ne := *env
		ne.st = st
		v := x.ev(arg, &ne)
		switch fn {
		case "elems":
			et := v.t.Underlying().(*types.Slice).Elem()
			for q := 0; q < nleaves(et); q++ {
				k, lf := elemLeafKey(et, q)
				out = append(out, addr{k, v.l[0], arrSort("Int", arrSort("Int", lf.sort)), lf})
			}
			return out
		case "map":
			mt := v.t.Underlying().(*types.Map)
			has, hs, vs, vss, _ := x.mapKeys(mt)
			out = append(out, addr{has, v.l[0], hs, Leaf{sort: "Bool", kind: "bool"}})
			for i, lf := range leavesOf(mt.Elem()) {
				out = append(out, addr{vs[i], v.l[0], vss[i], lf})
			}
			out = append(out, addr{x.mapCardKey(mt), v.l[0], arrSort("Int", "Int"), Leaf{sort: "Int", kind: "int"}})
			return out
		}
		x.serr("modifies %s", it)
	}
	base, field, ok := selOf(e)
	if !ok {
		x.serr("modifies %s", it)
	}
	ne := *env
	ne.st = st
	v := x.ev(base, &ne)
	et := deref(v.t)
	if et == nil {
		x.serr("modifies %s: not a pointer", it)
	}
	if x.locs[v.l[0]] != nil {
		x.unsup("modifies %s through an interior pointer", it)
	}
	et = originType(et)
	s := et.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field || field == "ALL" {
			off, ft := fieldOff(s, i)
			for q := 0; q < nleaves(ft); q++ {
				k, lf := structLeafKey(et, off+q)
				out = append(out, addr{k, v.l[0], arrSort("Int", lf.sort), lf})
			}
		}
	}
	if out == nil {
		x.serr("modifies %s: no such field", it)
	}
	return out
}

type recKey struct {
	key  string
	info keyInfo
}

func (x *Exec) recKeys(name string) []recKey {
	ri := x.v.spec.records[name]
	var out []recKey
	in := Leaf{sort: "Int", kind: "int"}
	for _, w := range []string{"n", "prev", "last", "seq", "total"} {
		out = append(out, recKey{"G:" + name + "." + w, keyInfo{arrSort("Int", "Int"), in}})
	}
	add := func(pre string, ts []types.Type) {
		for i, t := range ts {
			for q, lf := range leavesOf(t) {
				out = append(out, recKey{fmt.Sprintf("G:%s.%s%d#%d", name, pre, i, q), keyInfo{arrSort("Int", lf.sort), lf}})
			}
		}
	}
	add("arg", ri.args)
	add("ret", ri.rets)
	return out
}

func (x *Exec) doRecord(st *State, name string, recIdx any, env *SEnv, args, rets []Val, hasRecv bool) {
	ri := x.v.spec.records[name]
	if ri == nil {
		x.serr("unknown record %s", name)
	}
	idx := x.b.Int(0)
	if e := asExpr(recIdx); e != nil {
		ne := *env
		ne.st = env.old
		idx = x.ev(e, &ne).l[0]
	}
	var as, rs []Val
	if f, ok := env.vars["self"]; ok && len(ri.args) == len(args)+1 {
		args = append(append([]Val{}, args...), f)
	}
	for i, a := range args {
		as = append(as, Val{t: ri.args[i], l: a.l})
	}
	for i, r := range rets {
		rs = append(rs, Val{t: ri.rets[i], l: r.l})
	}
	x.recWrite(st, name, idx, as, rs)
}

// --- external functions

func (x *Exec) underLock(st *State, key string, site ssa.Instruction) {
	m := key[strings.LastIndexByte(key, '.')+1:]
	for _, c := range x.rootC {
		if c.kind != "under" || !c.in(x.view) {
			continue
		}
		for _, n := range c.list {
			if n == m && (strings.Contains(key, "cuelang.org/go/cue.") || unicode.IsLower(rune(m[0])) && strings.Contains(key, "grafana/thema")) {
				env := *x.rootEnv
				env.st = st
				l := x.ev(c.expr, &env)
				in := Leaf{sort: "Int", kind: "int"}
				w := x.rd1(st, "L:lockW", in, l.l[0])
				r := x.rd1(st, "L:lockR", in, l.l[0])
				g := x.b.Lt(x.b.Int(0), w)
				if c.mode == "R" {
					g = x.b.Or(g, x.b.Lt(x.b.Int(0), r))
				}
				x.oblig(st, fmt.Sprintf("%s is called with the runtime lock held (%s)", m, c.mode), g, x.v.pos(site.Pos()))
			}
		}
	}
}

// decodedInto: the slice s holds exactly what decoding v put into its array.
func (x *Exec) decodedInto(st *State, s, v Val) *Term {
	b := x.b
	et := s.t.Underlying().(*types.Slice).Elem()
	c := []*Term{b.Eq(s.l[1], b.Int(0)), b.Eq(s.l[2], b.UF("decodeLen:"+typeKey(s.t), "Int", v.l...))}
	for q := 0; q < nleaves(et); q++ {
		k, lf := elemLeafKey(et, q)
		c = append(c, b.Eq(x.rdRegion(st, k, lf, s.l[0]), b.UF(fmt.Sprintf("decodeArr:%s#%d", typeKey(s.t), q), arrSort("Int", lf.sort), append([]*Term{s.l[0]}, v.l...)...)))
	}
	return b.And(c...)
}

// byContent: a pure function sees the content of a []byte, not where it lies.
func (x *Exec) byContent(st *State, v Val) Val {
	sl, ok := v.t.Underlying().(*types.Slice)
	if !ok {
		return v
	}
	if bt, ok := sl.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Byte {
		return v
	}
	if v.arr != nil {
		return Val{t: v.t, l: []*Term{v.arr[0], v.l[1], v.l[2]}}
	}
	k, lf := elemLeafKey(sl.Elem(), 0)
	return Val{t: v.t, l: []*Term{x.rdRegion(st, k, lf, v.l[0]), v.l[1], v.l[2]}}
}

// variadicElems returns the elements of a statically sized slice value.
func (x *Exec) variadicElems(st *State, s Val) ([]Val, bool) {
	if s.l[2].op != "int" {
		return nil, false
	}
	n := int(s.l[2].big.Int64())
	var out []Val
	for i := 0; i < n; i++ {
		out = append(out, x.sliceElem(st, s, x.b.Int(int64(i))))
	}
	return out, true
}

func (x *Exec) extern(st *State, key string, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	x.underLock(st, key, site)
	if outs := x.panicLocked(st, key); outs != nil {
		return append(outs, x.extern1(st, key, sig, args, site)...)
	}
	return x.extern1(st, key, sig, args, site)
}

// panicLocked: evaluating CUE values or decoding them (which may run methods
// of the caller's types) may panic; that matters while a lock is held.
func (x *Exec) panicLocked(st *State, key string) []Outcome {
	if x.view != "P17" || x.pre == nil || !strings.HasPrefix(key, "(cuelang.org/go/cue.Value).") {
		return nil
	}
	switch key[strings.LastIndexByte(key, '.')+1:] {
	case "Unify", "Validate", "FillPath", "Decode", "Subsume":
	default:
		return nil
	}
	if st.heap["L:lockR"] == x.pre.heap["L:lockR"] && st.heap["L:lockW"] == x.pre.heap["L:lockW"] {
		return nil
	}
	ps := st.clone()
	x.branch(ps, x.b.Fresh("panics", "Bool"))
	return []Outcome{{st: ps, panicked: true, pval: x.freshVal(ps, "pv", types.NewInterfaceType(nil, nil))}}
}

func (x *Exec) extern1(st *State, key string, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	ex := x.v.spec.externs[key]
	if ex == nil {
		x.used["unspecified extern "+key] = true
		return x.havocCall(st, key[strings.LastIndexByte(key, '.')+1:], sig, args)
	}
	x.used["extern "+key] = true
	var rs []Val
	var elems []Val
	static := true
	nfix := len(args)
	if sig.Variadic() {
		nfix--
		elems, static = x.variadicElems(st, args[nfix])
	}
	if ex.pure {
		fixed := append([]Val{}, args[:nfix]...)
		for i := range fixed {
			fixed[i] = x.byContent(st, fixed[i])
		}
		var pv Val
		if sig.Variadic() && !static {
			s := args[nfix]
			et := s.t.Underlying().(*types.Slice).Elem()
			for q := 0; q < nleaves(et); q++ {
				k, lf := elemLeafKey(et, q)
				fixed = append(fixed, Val{t: et, l: []*Term{x.rdRegion(st, k, lf, s.l[0])}})
			}
			fixed = append(fixed, Val{t: types.Typ[types.Int], l: []*Term{s.l[1], s.l[2]}})
			pv = x.pureApp(key+"$dyn", sig, fixed, nil, false)
		} else {
			pv = x.pureApp(key, sig, fixed, elems, sig.Variadic())
		}
		off, aoff := 0, 0
		for _, t := range sigResults(sig) {
			n := nleaves(t)
			r := Val{t: t, l: append([]*Term{}, pv.l[off:off+n]...)}
			off += n
			if sl, ok := t.Underlying().(*types.Slice); ok {
				base := x.alloc(st)
				for q, lf := range leavesOf(sl.Elem()) {
					k, _ := elemLeafKey(sl.Elem(), q)
					x.wrRegion(st, k, lf, base, pv.arr[aoff+q])
				}
				aoff += nleaves(sl.Elem())
				x.fact(st, b.Le(b.Int(0), r.l[2]))
				r.l[0] = base
			} else {
				x.typeFacts(st, r)
			}
			rs = append(rs, r)
		}
	} else {
		nhw := b.Fresh("hw", "Int")
		x.fact(st, b.Le(st.hw, nhw))
		st.hw = nhw
		for i, t := range sigResults(sig) {
			rs = append(rs, x.freshVal(st, fmt.Sprintf("%s.r%d", key[strings.LastIndexByte(key, '.')+1:], i), t))
		}
	}
	env := &SEnv{vars: map[string]Val{}, st: st, old: st, pkg: ex.pkg, hwOld: st.hw}
	if len(ex.clauses) > 0 || ex.writes >= 0 {
		for i, p := range ex.params {
			if i < nfix {
				env.vars[p] = args[i]
			} else if static && i-nfix < len(elems) {
				env.vars[p] = elems[i-nfix]
			}
		}
		for i, p := range ex.results {
			if i < len(rs) {
				env.vars[p] = rs[i]
			}
		}
	}
	if ex.writes >= 0 && ex.writes < len(args) {
		a := args[ex.writes]
		errv := rs[len(rs)-1]
		var pt types.Type
		var p *Term
		if isIfaceT(a.t) {
			if a.l[0].op == "int" {
				pt = x.v.typeOfTag(int(a.l[0].big.Int64()))
			}
			p = a.l[1]
		} else {
			pt, p = a.t, a.l[0]
		}
		if pt != nil {
			if et := deref(pt); et != nil {
				d := x.decoded(args[0], et)
				if len(rs) == 1 && typeKey(errv.t) == typeKey(errT) {
					errv = x.decodeErr(args[0], et)
					x.typeFacts(st, errv)
					rs[0] = errv
					for _, p := range ex.results {
						env.vars[p] = errv
					}
				}
				f := x.freshVal(st, "undecoded", et)
				nv := Val{t: et}
				lfs := leavesOf(et)
				for i := range d.l {
					if lfs[i].kind == "base" || lfs[i].kind == "off" || lfs[i].kind == "len" || lfs[i].kind == "cap" || lfs[i].kind == "tag" || lfs[i].kind == "pay" || lfs[i].kind == "ref" {
						nv.l = append(nv.l, f.l[i])
						continue
					}
					nv.l = append(nv.l, b.Ite(b.Eq(errv.l[0], b.Int(0)), d.l[i], f.l[i]))
				}
				x.typeFacts(st, Val{t: et, l: d.l})
				if _, ok := et.Underlying().(*types.Slice); ok {
					// a new array holding what was decoded
					nv.l[0] = x.alloc(st)
					nv.l[1] = b.Int(0)
					x.fact(st, b.Implies(b.Eq(errv.l[0], b.Int(0)), x.decodedInto(st, nv, args[0])))
				}
				x.store(st, p, nv)
			}
		}
	}
	for _, c := range ex.clauses {
		if !c.in(x.view) {
			continue
		}
		switch c.kind {
		case "ensures", "assumes":
			x.fact(st, x.evBool(c.expr, env))
		case "requires":
			g := x.evBool(c.expr, env)
			if x.hasClause("safe") {
				x.oblig(st, fmt.Sprintf("call of %s: %s", key, c.text), g, x.v.pos(site.Pos()))
			}
			x.fact(st, g)
		}
	}
	return one(st, rs...)
}

// --- builtins

func (x *Exec) builtin(st *State, bi *ssa.Builtin, cc *ssa.CallCommon, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	iv := func(t *Term) []Outcome { return one(st, Val{t: types.Typ[types.Int], l: []*Term{t}}) }
	switch bi.Name() {
	case "len":
		switch args[0].t.Underlying().(type) {
		case *types.Slice:
			return iv(args[0].l[2])
		case *types.Map:
			x.mapCardFacts(st, args[0])
			return iv(x.mapCard(st, args[0]))
		case *types.Basic:
			return iv(x.strlen(st, args[0].l[0]))
		}
	case "cap":
		if _, ok := args[0].t.Underlying().(*types.Slice); ok {
			return iv(args[0].l[3])
		}
	case "append":
		return one(st, x.appendOp(st, args[0], args[1]))
	case "copy":
		return iv(x.copyOp(st, args[0], args[1]))
	case "delete":
		m := args[0]
		if b.Eq(m.l[0], b.Int(0)) != b.True {
			x.mapSet(st, m, args[1], Val{}, false)
		}
		return one(st)
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], "nil receiver", site.Pos())
		return one(st, args[0])
	case "print", "println":
		return one(st)
	case "recover":
		return one(st, x.freshVal(st, "recover", types.NewInterfaceType(nil, nil)))
	case "min", "max":
		if len(args) == 2 {
			c := b.Le(args[0].l[0], args[1].l[0])
			if bi.Name() == "max" {
				c = b.Not(c)
			}
			return one(st, Val{t: args[0].t, l: []*Term{b.Ite(c, args[0].l[0], args[1].l[0])}})
		}
	}
	x.unsup("builtin %s", bi.Name())
	return nil
}

func (x *Exec) appendOp(st *State, s, t Val) Val {
	b := x.b
	if bt, ok := t.t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		return x.freshVal(st, "append", s.t)
	}
	et := s.t.Underlying().(*types.Slice).Elem()
	n := t.l[2]
	base, off, ln, cp := s.l[0], s.l[1], s.l[2], s.l[3]
	nl := b.Add(ln, n)
	fits := x.decided(st, b.Le(nl, cp))
	nb := x.alloc(st)
	if fits == b.True {
		nb = base
	}
	rbase := b.Ite(fits, base, nb)
	roff := b.Ite(fits, off, b.Int(0))
	ncap := b.Fresh("cap", "Int")
	x.fact(st, b.Le(nl, ncap))
	x.fact(st, b.Le(ncap, b.Big(maxI64)))
	rcap := b.Ite(fits, cp, ncap)
	elems, static := x.variadicElems(st, t)
	for q, lf := range leavesOf(et) {
		k, _ := elemLeafKey(et, q)
		old := x.rdRegion(st, k, lf, base)
		reg := old
		if fits != b.True {
			var cpy *Term
			if ln.op == "int" && ln.big.IsInt64() && ln.big.Int64() <= 4 {
				cpy = b.Fresh("grown:"+k, arrSort("Int", lf.sort))
				for i := int64(0); i < ln.big.Int64(); i++ {
					cpy = b.Store(cpy, b.Int(i), b.Select(old, b.SX(off, b.Int(i))))
				}
			} else {
				cpy = b.Fresh("grown:"+k, arrSort("Int", lf.sort))
				i := b.BV("i", 70, "Int")
				x.fact(st, b.Forall([]*Term{i}, b.Implies(b.And(b.Le(b.Int(0), i), b.Lt(i, ln)), b.Eq(b.Select(cpy, i), b.Select(old, b.SX(off, i)))), b.Select(cpy, i)))
			}
			reg = b.Ite(fits, old, cpy)
		}
		if static {
			for i, e := range elems {
				reg = b.Store(reg, b.SX(roff, b.AddK(ln, int64(i))), e.l[q])
			}
		} else {
			src := x.rdRegion(st, k, lf, t.l[0])
			na := b.Fresh("app:"+k, arrSort("Int", lf.sort))
			i := b.BV("i", 70, "Int")
			at := b.Add(roff, ln)
			in := b.And(b.Le(at, i), b.Lt(i, b.Add(at, n)))
			x.fact(st, b.Forall([]*Term{i}, b.Eq(b.Select(na, i), b.Ite(in, b.Select(src, b.SX(t.l[1], b.Sub(i, at))), b.Select(reg, i))), b.Select(na, i)))
			reg = na
		}
		if static && len(elems) == 0 {
			continue
		}
		x.wrRegion(st, k, lf, rbase, reg)
	}
	return Val{t: s.t, l: []*Term{rbase, roff, nl, rcap}}
}

func (x *Exec) copyOp(st *State, d, s Val) *Term {
	b := x.b
	if _, ok := s.t.Underlying().(*types.Slice); !ok {
		x.unsup("copy from string")
	}
	n := b.Ite(b.Le(d.l[2], s.l[2]), d.l[2], s.l[2])
	et := d.t.Underlying().(*types.Slice).Elem()
	for q, lf := range leavesOf(et) {
		k, _ := elemLeafKey(et, q)
		src := x.rdRegion(st, k, lf, s.l[0])
		dst := x.rdRegion(st, k, lf, d.l[0])
		na := b.Fresh("cpy:"+k, arrSort("Int", lf.sort))
		i := b.BV("i", 70, "Int")
		in := b.And(b.Le(d.l[1], i), b.Lt(i, b.Add(d.l[1], n)))
		x.fact(st, b.Forall([]*Term{i}, b.Eq(b.Select(na, i), b.Ite(in, b.Select(src, b.SX(s.l[1], b.Sub(i, d.l[1]))), b.Select(dst, i))), b.Select(na, i)))
		x.wrRegion(st, k, lf, d.l[0], na)
	}
	return n
}

// --- models of particular functions

type model func(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome

var specials map[string]model

func init() {
	specials = map[string]model{
		"sort.Search":                               modelSearch,
		"fmt.Errorf":                                modelErrorf,
		"fmt.Sprintf":                               modelSprintf,
		"(*sync.RWMutex).RLock":                     modelLock("RLock"),
		"(*sync.RWMutex).RUnlock":                   modelLock("RUnlock"),
		"(*sync.RWMutex).Lock":                      modelLock("Lock"),
		"(*sync.RWMutex).Unlock":                    modelLock("Unlock"),
		"(*sync.RWMutex).TryLock":                   modelLock("TryLock"),
		"(*sync.RWMutex).TryRLock":                  modelLock("TryRLock"),
		"(*cuelang.org/go/cue.Iterator).Next":       modelNext,
		"(*cuelang.org/go/cue.Iterator).Value":      modelIterGet("itVal"),
		"(*cuelang.org/go/cue.Iterator).Selector":   modelIterGet("itSel"),
		"(*cuelang.org/go/cue.Iterator).Label":      modelIterGet("itLabel"),
		"(*cuelang.org/go/cue.Iterator).IsOptional": modelIterGet("itOptional"),
		"(cuelang.org/go/cue.Value).List":           modelList,
		"(cuelang.org/go/cue.Value).Fields":         modelFields,
		"cuelang.org/go/cue.MakePath":               modelMakePath,
		"(cuelang.org/go/cue.Path).Selectors":       modelSelectors,
		"io/fs.WalkDir":                             modelOf("WalkDir"),
		"io/fs.ReadFile":                            modelOf("ReadFile"),
	}
}

// modelSearch: for n >= 0, a result i in [0, n] with f(i-1) false and f(i)
// true where those indices exist (the documented post-condition of binary
// search for any predicate). The predicate is executed at both points.
func modelSearch(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	n := args[0].l[0]
	r := b.Fresh("search", "Int")
	x.fact(st, b.Le(b.Int(0), r))
	x.fact(st, b.Or(b.Le(r, n), b.Eq(r, b.Int(0))))
	f := x.funcs[args[1].l[0]]
	if f == nil || f.fn == nil {
		return one(st, Val{t: types.Typ[types.Int], l: []*Term{r}})
	}
	at := func(i *Term, in *Term) *Term {
		// execute the predicate in a copy of the state guarded by in
		s2 := st.clone()
		x.branch(s2, in)
		outs := x.callStatic(s2, f.fn, []Val{{t: types.Typ[types.Int], l: []*Term{i}}}, f.bind, site)
		var res *Term
		for k := len(outs) - 1; k >= 0; k-- {
			o := outs[k]
			if o.panicked {
				x.safety(o.st, b.False, "panic in search predicate", site.Pos())
				continue
			}
			var gs []*Term
			for _, fa := range o.st.pc[len(st.pc):] {
				if fa.branch {
					gs = append(gs, fa.t)
				} else {
					x.fact(st, b.Implies(in, fa.t))
				}
			}
			if res == nil {
				res = o.res[0].l[0]
			} else {
				res = b.Ite(b.And(gs...), o.res[0].l[0], res)
			}
			for _, key := range sortedHeap(o.st.heap) {
				v := o.st.heap[key]
				if h, ok := st.heap[key]; !ok || h != v {
					if ki := x.keyInfo[key]; x.H(st, key, ki.sort, ki.lf) != v {
						x.unsup("search predicate has effects")
					}
				}
			}
		}
		return res
	}
	in1 := b.Lt(r, n)
	if p := at(r, in1); p != nil {
		x.fact(st, b.Implies(in1, p))
	}
	in2 := b.And(b.Lt(b.Int(0), r), b.Le(r, n))
	if p := at(b.AddK(r, -1), in2); p != nil {
		x.fact(st, b.Implies(in2, b.Not(p)))
	}
	return one(st, Val{t: types.Typ[types.Int], l: []*Term{r}})
}

var errT = types.Universe.Lookup("error").Type()

// modelErrorf: a new error wrapping the operand of each %w.
func modelErrorf(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	e := x.freshVal(st, "Errorf", errT)
	x.fact(st, b.Lt(b.Int(0), e.l[0]))
	if isStrLit(args[0].l[0]) {
		f := args[0].l[0].name[4:]
		elems, ok := x.variadicElems(st, args[1])
		if ok {
			idx := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
					j++
				}
				if j >= len(f) {
					break
				}
				if f[j] == '%' {
					i = j
					continue
				}
				if f[j] == 'w' && idx < len(elems) {
					w := elems[idx]
					ex := x.errQuant(func(t Val) *Term {
						return b.Implies(x.errIs(w, t), x.errIs(e, t))
					})
					x.fact(st, b.Implies(b.Not(b.Eq(w.l[0], b.Int(0))), x.errIs(e, Val{t: errT, l: w.l})))
					x.fact(st, ex)
				}
				idx++
				i = j
			}
		}
	}
	return one(st, e)
}

// strcat concatenates, associated to the left, literals merged.
func (x *Exec) strcat(l, r *Term) *Term {
	b := x.b
	switch {
	case isStrLit(r) && r.name == "str:":
		return l
	case isStrLit(l) && l.name == "str:":
		return r
	case isStrLit(l) && isStrLit(r):
		return x.strLit(l.name[4:] + r.name[4:])
	case r.op == "uf:strcat":
		return x.strcat(x.strcat(l, r.args[0]), r.args[1])
	case l.op == "uf:strcat" && isStrLit(l.args[1]) && isStrLit(r):
		return b.UF("strcat", "Str", l.args[0], x.strLit(l.args[1].name[4:]+r.name[4:]))
	}
	return b.UF("strcat", "Str", l, r)
}

// modelSprintf: the concatenation of literals, strings and numbers in base
// ten, if the format and the types of the arguments are known and plain;
// otherwise any string.
func modelSprintf(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	strT := types.Typ[types.String]
	any := func() []Outcome { return one(st, x.freshVal(st, "Sprintf", strT)) }
	elems, ok := x.variadicElems(st, args[1])
	if !ok || !isStrLit(args[0].l[0]) {
		return any()
	}
	f := args[0].l[0].name[4:]
	res := x.strLit("")
	idx := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			res = x.strcat(res, x.strLit(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return any()
		}
		if f[i] == '%' {
			res = x.strcat(res, x.strLit("%"))
			continue
		}
		if strings.IndexByte("vds", f[i]) < 0 || idx >= len(elems) {
			return any()
		}
		e := elems[idx]
		idx++
		if e.l[0].op != "int" {
			return any()
		}
		bt, ok := x.v.typeOfTag(int(e.l[0].big.Int64())).(*types.Basic)
		if !ok {
			return any()
		}
		v := x.unbox(e.l[1], bt)
		switch {
		case bt.Info()&types.IsString != 0 && f[i] != 'd':
			res = x.strcat(res, v.l[0])
		case bt.Info()&types.IsUnsigned != 0 && f[i] != 's':
			res = x.strcat(res, b.UF("strconv.FormatUint#0", "Str", v.l[0], b.Int(10)))
		case bt.Info()&types.IsInteger != 0 && bt.Info()&types.IsUntyped == 0 && f[i] != 's':
			res = x.strcat(res, b.UF("strconv.FormatInt#0", "Str", v.l[0], b.Int(10)))
		default:
			return any()
		}
	}
	if idx != len(elems) {
		return any()
	}
	return one(st, Val{t: strT, l: []*Term{res}})
}

func (x *Exec) errIs(l, r Val) *Term {
	return x.b.UF("errIs", "Bool", l.l[0], l.l[1], r.l[0], r.l[1])
}
func (x *Exec) errQuant(f func(t Val) *Term) *Term {
	b := x.b
	v := []*Term{b.BV("et", 60, "Int"), b.BV("ep", 60, "Int")}
	return b.Forall(v, f(Val{t: errT, l: v}))
}

func modelLock(op string) model {
	return func(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
		b := x.b
		if x.view != "P17" {
			if strings.HasPrefix(op, "Try") {
				return one(st, x.freshVal(st, op, types.Typ[types.Bool]))
			}
			return one(st)
		}
		lc := x.locs[args[0].l[0]]
		if lc == nil || lc.kind != "field" {
			x.unsup("lock that is not a field")
		}
		ref := lc.ref
		in := Leaf{sort: "Int", kind: "int"}
		R := x.rd1(st, "L:lockR", in, ref)
		W := x.rd1(st, "L:lockW", in, ref)
		z := b.Int(0)
		where := x.v.pos(site.Pos())
		switch op {
		case "RLock":
			x.oblig(st, "RLock: the lock is not held already", b.And(b.Eq(R, z), b.Eq(W, z)), where)
			x.fact(st, b.Eq(W, z))
			x.wr1(st, "L:lockR", in, ref, b.AddK(R, 1))
		case "Lock":
			x.oblig(st, "Lock: the lock is not held already", b.And(b.Eq(R, z), b.Eq(W, z)), where)
			x.fact(st, b.And(b.Eq(R, z), b.Eq(W, z)))
			x.wr1(st, "L:lockW", in, ref, b.Int(1))
		case "RUnlock":
			x.oblig(st, "RUnlock: the lock is held for reading", b.Lt(z, R), where)
			x.fact(st, b.Lt(z, R))
			x.wr1(st, "L:lockR", in, ref, b.AddK(R, -1))
		case "Unlock":
			x.oblig(st, "Unlock: the lock is held for writing", b.Eq(W, b.Int(1)), where)
			x.fact(st, b.Eq(W, b.Int(1)))
			x.wr1(st, "L:lockW", in, ref, z)
		default:
			x.unsup("%s", op)
		}
		return one(st)
	}
}

var iterT types.Type

func (x *Exec) iterCell(st *State, p Val, site ssa.Instruction) (Val, types.Type) {
	t := deref(p.t)
	x.nilCheck(st, p, "nil iterator", site.Pos())
	return x.load(st, p.l[0], t), t
}

func modelNext(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	it, t := x.iterCell(st, args[0], site)
	n := b.UF("ghost:listLen", "Int", it.l[0])
	x.fact(st, b.Le(b.Int(0), n))
	x.fact(st, b.Le(b.Int(-1), it.l[1]))
	np := b.AddK(it.l[1], 1)
	ok := b.Lt(np, n)
	x.store(st, args[0].l[0], Val{t: t, l: []*Term{it.l[0], b.Ite(ok, np, n)}})
	return one(st, Val{t: types.Typ[types.Bool], l: []*Term{ok}})
}

func modelIterGet(fn string) model {
	return func(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
		it, _ := x.iterCell(st, args[0], site)
		r := Val{t: sig.Results().At(0).Type()}
		for i, lf := range leavesOf(r.t) {
			n := "ghost:" + fn
			if i > 0 {
				n += fmt.Sprintf("#%d", i)
			}
			r.l = append(r.l, x.b.UF(n, lf.sort, it.l[0], it.l[1]))
		}
		x.typeFacts(st, r)
		return one(st, r)
	}
}

func modelList(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	x.underLock(st, "(cuelang.org/go/cue.Value).List", site)
	lst := b.UF("ghost:listOf", "U", args[0].l...)
	x.fact(st, b.Le(b.Int(0), b.UF("ghost:listLen", "Int", lst)))
	e := Val{t: errT, l: []*Term{b.UF("ghost:listErr", "Int", args[0].l...), b.UF("ghost:listErr#1", "Int", args[0].l...)}}
	x.typeFacts(st, e)
	it := Val{t: sig.Results().At(0).Type(), l: []*Term{lst, b.Int(-1)}}
	return one(st, it, e)
}

func modelFields(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	x.underLock(st, "(cuelang.org/go/cue.Value).Fields", site)
	ls := append([]*Term{}, args[0].l...)
	name := "ghost:fieldsOf"
	if el, ok := x.variadicElems(st, args[1]); ok {
		if len(el) > 0 {
			name += fmt.Sprint(len(el))
		}
		for _, e := range el {
			ls = append(ls, e.l...)
		}
	} else {
		ls = append(ls, b.Fresh("opts", "U"))
		name += "$dyn"
	}
	lst := b.UF(name, "U", ls...)
	x.fact(st, b.Le(b.Int(0), b.UF("ghost:listLen", "Int", lst)))
	e := Val{t: errT, l: []*Term{b.UF("ghost:fieldsErr", "Int", args[0].l...), b.UF("ghost:fieldsErr#1", "Int", args[0].l...)}}
	x.typeFacts(st, e)
	pt := sig.Results().At(0).Type()
	p := x.alloc(st)
	x.store(st, p, Val{t: deref(pt), l: []*Term{lst, b.Int(-1)}})
	return one(st, Val{t: pt, l: []*Term{p}}, e)
}

// modelMakePath: a path with exactly these selectors.
func modelMakePath(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	s := args[0]
	et := s.t.Underlying().(*types.Slice).Elem()
	rt := sig.Results().At(0).Type()
	if el, ok := x.variadicElems(st, s); ok {
		p := x.pureApp("cuelang.org/go/cue.MakePath", sig, nil, el, true)
		x.pathFacts(st, p.l[0], el)
		return one(st, Val{t: rt, l: p.l})
	}
	p := b.Fresh("path", "U")
	k, lf := elemLeafKey(et, 0)
	reg := x.rdRegion(st, k, lf, s.l[0])
	i := b.BV("i", 70, "Int")
	x.fact(st, b.Eq(b.UF("ghost:nsel", "Int", p), s.l[2]))
	x.fact(st, b.Forall([]*Term{i}, b.Implies(b.And(b.Le(b.Int(0), i), b.Lt(i, s.l[2])), b.Eq(b.Select(b.UF("selarr", arrSort("Int", "U"), p), i), b.Select(reg, b.SX(s.l[1], i))))))
	return one(st, Val{t: rt, l: []*Term{p}})
}

func (x *Exec) pathFacts(st *State, p *Term, el []Val) {
	b := x.b
	x.fact(st, b.Eq(b.UF("ghost:nsel", "Int", p), b.Int(int64(len(el)))))
	for i, e := range el {
		x.fact(st, b.Eq(b.Select(b.UF("selarr", arrSort("Int", "U"), p), b.Int(int64(i))), e.l[0]))
	}
}

func modelSelectors(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	b := x.b
	t := sig.Results().At(0).Type()
	et := t.Underlying().(*types.Slice).Elem()
	k, lf := elemLeafKey(et, 0)
	p := args[0].l[0]
	n := b.UF("ghost:nsel", "Int", p)
	x.fact(st, b.Le(b.Int(0), n))
	x.fact(st, b.Le(n, b.Big(maxI64)))
	base := x.alloc(st)
	x.wrRegion(st, k, lf, base, b.UF("selarr", arrSort("Int", "U"), p))
	return one(st, Val{t: t, l: []*Term{base, b.Int(0), n, n}})
}

// modelOf runs the model of a library function that calls back.
func modelOf(name string) model {
	return func(x *Exec, st *State, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
		f := x.v.modelFn(name)
		if f == nil {
			x.unsup("no model of %s", name)
		}
		return x.callFunc(st, f, args, nil)
	}
}

var _ = sort.Strings
