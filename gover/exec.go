package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	name  string
	pc    []Fact
	goal  *Term
	where string
}

type Outcome struct {
	st       *State
	res      []Val
	panicked bool
	pval     Val
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	site ssa.Instruction
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopInfo
	active map[*ssa.BasicBlock]*loopCtx
	dry    *loopInfo
	outs   *[]Outcome
	depth  int
	sub    map[string]types.Type
}

func (fr *frame) fork() *frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.active = make(map[*ssa.BasicBlock]*loopCtx, len(fr.active))
	for k, v := range fr.active {
		n.active[k] = v
	}
	return &n
}

type Exec struct {
	b        *TB
	v        *Verifier
	view     string
	locs     map[*Term]*Loc
	funcs    map[*Term]*FuncV
	forigin  map[*Term]string
	fowner   map[*Term]Val // the struct a function value was loaded from
	rootSafe bool
	boxed    map[*Term]Val
	axioms   map[*Term][]*Term
	keyInfo  map[string]keyInfo
	globals  map[*ssa.Global]*Val
	specAx   []*Term
	obls     []Oblig
	onWrite  func(key string, ref *Term)
	quiet    int

	root     *ssa.Function
	rootName string
	rootC    []*Clause // clauses of the root contract in this view
	rootEnv  *SEnv     // params by contract name, pre-state
	pre      *State
	stack    []*ssa.Function
	nepoch   int
	paths    int
	used     map[string]bool // externs and contracts relied upon
	inlined  map[string]bool
	stats    *Stats
	loopN    int
	loopLog  []string
	nAsserts int
	covers   []cover
	unsafeOK bool
	trivial  int
	axDone   bool
	axList   []specAx
	closure  bool
	checkLk  bool
}

type cover struct {
	name string
	pc   []Fact
}

func (v *Verifier) newExec(view string) *Exec {
	x := &Exec{b: NewTB(), v: v, view: view, locs: map[*Term]*Loc{}, funcs: map[*Term]*FuncV{}, forigin: map[*Term]string{}, fowner: map[*Term]Val{}, boxed: map[*Term]Val{}, axioms: map[*Term][]*Term{}, keyInfo: map[string]keyInfo{}, globals: map[*ssa.Global]*Val{}, used: map[string]bool{}, inlined: map[string]bool{}, stats: v.stats}
	return x
}

func (x *Exec) oblig(st *State, name string, goal *Term, where string) {
	if x.quiet > 0 {
		return
	}
	x.nAsserts++
	x.obls = append(x.obls, Oblig{name: x.rootName + ": " + name, pc: st.pc, goal: goal, where: where})
}

func (x *Exec) hasClause(kind string) bool {
	for _, c := range x.rootC {
		if c.kind == kind {
			return true
		}
	}
	return false
}

// safety: the condition must hold or the program panics at this point.
func (x *Exec) safety(st *State, cond *Term, what string, pos token.Pos) {
	cond = x.decided(st, cond)
	if cond == x.b.True {
		return
	}
	if x.hasClause("safe") {
		g := cond
		if p := x.panicAllowed(); p != nil {
			g = x.b.Or(cond, p)
		}
		x.oblig(st, "no panic: "+what, g, x.v.pos(pos))
	}
	x.fact(st, cond)
}

// panicAllowed is the disjunction of the root contract's "panics when" clauses.
func (x *Exec) panicAllowed() *Term {
	var ts []*Term
	for _, c := range x.rootC {
		if c.kind == "panics" || c.kind == "maypanicif" {
			ts = append(ts, x.evBool(c.expr, x.rootEnv))
		}
	}
	if ts == nil {
		return nil
	}
	return x.b.Or(ts...)
}

func (x *Exec) val(fr *frame, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.ssaConst(c)
	case *ssa.Function:
		return x.funcVal(&FuncV{fn: c}, c.Type())
	case *ssa.Global:
		et := deref(c.Type())
		return Val{t: c.Type(), l: []*Term{x.newLoc(&Loc{kind: "global", t: et, g: c})}}
	case *ssa.Builtin:
		return Val{t: c.Type(), l: []*Term{x.b.Int(0)}}
	}
	r, ok := fr.env[v]
	if !ok {
		x.unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) funcVal(f *FuncV, t types.Type) Val {
	n := "func:" + f.origin
	if f.fn != nil {
		n = "func:" + f.fn.String()
	}
	if len(f.bind) > 0 || f.clo != nil {
		n = x.b.Fresh(n, "Int").name
	}
	c := x.b.Const(n, "Int")
	x.funcs[c] = f
	x.axioms[c] = []*Term{x.b.Lt(x.b.Int(0), c)}
	return Val{t: t, l: []*Term{c}}
}

func (x *Exec) ssaConst(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	t := c.Type()
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{t: t, l: []*Term{x.b.Bool(constant.BoolVal(c.Value))}}
	case constant.String:
		return Val{t: t, l: []*Term{x.strLit(constant.StringVal(c.Value))}}
	case constant.Int:
		if leavesOf(t)[0].sort == "Int" {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return Val{t: t, l: []*Term{x.b.Big(n)}}
		}
	}
	return Val{t: t, l: []*Term{x.b.Const("lit:"+c.Value.ExactString()+":"+typeKey(t), "U")}}
}

// callFunc executes fn's body from st and returns every way it can end.
func (x *Exec) callFunc(st *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if fn.Origin() != nil && len(fn.Blocks) == 0 {
		fn = fn.Origin()
	}
	if len(fn.Blocks) == 0 {
		x.unsup("no body for %s", fn)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 1 || len(x.stack) > 40 {
		x.unsup("recursion in %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	var outs []Outcome
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, loops: x.v.loopsOf(fn), active: map[*ssa.BasicBlock]*loopCtx{}, outs: &outs}
	for i, p := range fn.Params {
		if i >= len(args) {
			x.unsup("arity of %s", fn)
		}
		fr.env[p] = Val{t: p.Type(), l: args[i].l}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = Val{t: p.Type(), l: bind[i].l}
	}
	x.runBlock(fr, st, fn.Blocks[0], nil)
	return outs
}

func (x *Exec) phiVals(fr *frame, st *State, b, pred *ssa.BasicBlock) map[*ssa.Phi]Val {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	m := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.val(fr, st, p.Edges[idx])
		m[p] = Val{t: p.Type(), l: v.l}
	}
	return m
}

func (x *Exec) runBlock(fr *frame, st *State, b, pred *ssa.BasicBlock) {
	if fr.dry != nil && !fr.dry.body[b] {
		return
	}
	if x.dead(st) {
		return
	}
	var phis map[*ssa.Phi]Val
	if pred != nil {
		phis = x.phiVals(fr, st, b, pred)
	}
	if li := fr.loops[b]; li != nil {
		if ctx := fr.active[b]; ctx != nil && li.body[pred] {
			for p, v := range phis {
				fr.env[p] = v
			}
			ctx.back(st, fr)
			return
		}
		for p, v := range phis {
			fr.env[p] = v
		}
		x.enterLoop(fr, st, li)
		return
	}
	for p, v := range phis {
		fr.env[p] = v
	}
	x.runInstrs(fr, st, b, 0)
}

func (x *Exec) finish(fr *frame, o Outcome) {
	if fr.dry != nil {
		return
	}
	if x.dead(o.st) {
		return
	}
	*fr.outs = append(*fr.outs, o)
	x.paths++
	if x.paths > 60000 {
		x.unsup("too many paths")
	}
}

// runDefers executes deferred calls from the last on, then continues.
func (x *Exec) runDefers(fr *frame, st *State, k func(fr *frame, st *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	for i, o := range x.call(fr, st, d.call, d.fn, d.args, d.site) {
		nf := fr
		if i > 0 {
			nf = fr.fork()
		}
		if o.panicked {
			x.panicWith(nf, o.st, o.pval)
			continue
		}
		x.runDefers(nf.fork(), o.st, k)
	}
}

func (x *Exec) panicWith(fr *frame, st *State, pv Val) {
	x.runDefers(fr.fork(), st, func(fr *frame, st *State) {
		x.finish(fr, Outcome{st: st, panicked: true, pval: pv})
	})
}

func (x *Exec) runInstrs(fr *frame, st *State, blk *ssa.BasicBlock, from int) {
	b := x.b
	for i := from; i < len(blk.Instrs); i++ {
		if x.dead(st) {
			return
		}
		switch in := blk.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.decided(st, x.val(fr, st, in.Cond).l[0])
			if c == b.True {
				x.runBlock(fr, st, blk.Succs[0], blk)
				return
			}
			if c == b.False {
				x.runBlock(fr, st, blk.Succs[1], blk)
				return
			}
			f2, s2 := fr.fork(), st.clone()
			x.branch(s2, c)
			x.runBlock(f2, s2, blk.Succs[0], blk)
			x.branch(st, b.Not(c))
			x.runBlock(fr, st, blk.Succs[1], blk)
			return
		case *ssa.Jump:
			x.runBlock(fr, st, blk.Succs[0], blk)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			x.finish(fr, Outcome{st: st, res: rs})
			return
		case *ssa.RunDefers:
			j := i
			x.runDefers(fr, st, func(fr *frame, st *State) { x.runInstrs(fr, st, blk, j+1) })
			return
		case *ssa.Panic:
			x.panicWith(fr, st, x.val(fr, st, in.X))
			return
		case *ssa.Defer:
			fn, args := x.callArgs(fr, st, &in.Call)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{&in.Call, fn, args, in})
		case *ssa.Call:
			fn, args := x.callArgs(fr, st, &in.Call)
			st0 := st.clone() // one of the outcomes may go on with st itself
			outs := x.call(fr, st, &in.Call, fn, args, in)
			outs = x.merge(st0, outs)
			for k, o := range outs {
				nf := fr
				if k < len(outs)-1 {
					nf = fr.fork()
				}
				if o.panicked {
					x.panicWith(nf, o.st, o.pval)
					continue
				}
				nf.env[in] = tupleVal(in.Type(), o.res)
				x.runInstrs(nf, o.st, blk, i+1)
			}
			return
		case *ssa.Store:
			p := x.val(fr, st, in.Addr)
			x.nilCheck(st, p, "nil pointer store", in.Pos())
			v := x.val(fr, st, in.Val)
			x.store(st, p.l[0], Val{t: deref(in.Addr.Type()), l: v.l})
		case *ssa.MapUpdate:
			m := x.val(fr, st, in.Map)
			x.safety(st, b.Not(b.Eq(m.l[0], b.Int(0))), "assignment to entry in nil map", in.Pos())
			x.mapSet(st, m, x.val(fr, st, in.Key), x.val(fr, st, in.Value), true)
		case ssa.Value:
			outs := x.evalInstr(fr, st, in)
			if outs == nil {
				return
			}
			fr.env[in] = *outs
		default:
			x.unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

func tupleVal(t types.Type, rs []Val) Val {
	if len(rs) == 1 {
		if _, tup := t.(*types.Tuple); !tup {
			return Val{t: t, l: rs[0].l}
		}
	}
	v := Val{t: t}
	for _, r := range rs {
		v.l = append(v.l, r.l...)
	}
	return v
}

func (x *Exec) nilCheck(st *State, p Val, what string, pos token.Pos) {
	if x.locs[p.l[0]] != nil {
		return
	}
	x.safety(st, x.b.Not(x.b.Eq(p.l[0], x.b.Int(0))), what, pos)
}

// evalInstr computes the value of a side effect free (or allocating)
// instruction. A nil result ends the path.
func (x *Exec) evalInstr(fr *frame, st *State, v ssa.Value) *Val {
	b := x.b
	ret := func(t types.Type, l ...*Term) *Val { return &Val{t: t, l: l} }
	switch in := v.(type) {
	case *ssa.Alloc:
		et := deref(in.Type())
		r := x.alloc(st)
		if at, ok := et.Underlying().(*types.Array); ok && at.Len() == 0 {
			return ret(in.Type(), r)
		}
		if _, ok := et.Underlying().(*types.Array); ok && nleaves(et) == 1 && leavesOf(et)[0].kind == "u" && leavesOf(et)[0].typ == et {
			x.unsup("large array %v", et)
		}
		x.store(st, r, x.zero(et))
		return ret(in.Type(), r)
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		x.nilCheck(st, p, "nil pointer dereference", in.Pos())
		stt := deref(in.X.Type())
		str := stt.Underlying().(*types.Struct)
		off, ft := fieldOff(str, in.Field)
		if lc := x.locs[p.l[0]]; lc != nil {
			if opaqueStruct(stt) {
				x.unsup("field of interior opaque struct %v", stt)
			}
			n := *lc
			n.off += off
			n.t = ft
			return ret(in.Type(), x.newLoc(&n))
		}
		return ret(in.Type(), x.newLoc(&Loc{kind: "field", t: ft, st: stt, ref: p.l[0], off: off}))
	case *ssa.Field:
		s := x.val(fr, st, in.X)
		if opaqueStruct(in.X.Type()) {
			nv := x.pureUF(fmt.Sprintf("field:%s.%d", typeKey(in.X.Type()), in.Field), in.Type(), s)
			x.typeFacts(st, nv)
			return &nv
		}
		off, ft := fieldOff(in.X.Type().Underlying().(*types.Struct), in.Field)
		nv := Val{t: in.Type(), l: s.l[off : off+nleaves(ft)]}
		x.noteOrigin(nv, in.X.Type(), in.Field)
		return &nv
	case *ssa.IndexAddr:
		p := x.val(fr, st, in.X)
		idx := x.val(fr, st, in.Index).l[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.safety(st, b.And(b.Le(b.Int(0), idx), b.Lt(idx, p.l[2])), "index out of range", in.Pos())
			return ret(in.Type(), x.newLoc(&Loc{kind: "elem", t: u.Elem(), st: u.Elem(), ref: p.l[0], idx: b.SX(p.l[1], idx)}))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.nilCheck(st, p, "nil pointer dereference", in.Pos())
			x.safety(st, b.And(b.Le(b.Int(0), idx), b.Lt(idx, b.Int(at.Len()))), "index out of range", in.Pos())
			if lc := x.locs[p.l[0]]; lc != nil {
				if idx.op != "int" {
					x.unsup("variable index into embedded array")
				}
				n := *lc
				n.off += int(idx.big.Int64()) * nleaves(at.Elem())
				n.t = at.Elem()
				return ret(in.Type(), x.newLoc(&n))
			}
			return ret(in.Type(), x.newLoc(&Loc{kind: "elem", t: at.Elem(), st: at.Elem(), ref: p.l[0], idx: idx}))
		}
		x.unsup("IndexAddr on %v", in.X.Type())
	case *ssa.Index:
		s := x.val(fr, st, in.X)
		idx := x.val(fr, st, in.Index).l[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(st, b.And(b.Le(b.Int(0), idx), b.Lt(idx, b.Int(u.Len()))), "index out of range", in.Pos())
			n := nleaves(u.Elem())
			if idx.op == "int" {
				k := int(idx.big.Int64())
				if k < 0 || k >= int(u.Len()) {
					return nil
				}
				return ret(in.Type(), s.l[k*n:(k+1)*n]...)
			}
			out := Val{t: in.Type(), l: append([]*Term{}, s.l[(int(u.Len())-1)*n:]...)}
			for k := int(u.Len()) - 2; k >= 0; k-- {
				for q := 0; q < n; q++ {
					out.l[q] = b.Ite(b.Eq(idx, b.Int(int64(k))), s.l[k*n+q], out.l[q])
				}
			}
			return &out
		case *types.Basic:
			x.safety(st, b.And(b.Le(b.Int(0), idx), b.Lt(idx, x.strlen(st, s.l[0]))), "index out of range", in.Pos())
			nv := Val{t: in.Type(), l: []*Term{x.strAt(s.l[0], idx)}}
			x.typeFacts(st, nv)
			return &nv
		}
		x.unsup("Index on %v", in.X.Type())
	case *ssa.Lookup:
		m := x.val(fr, st, in.X)
		idx := x.val(fr, st, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			i := idx.l[0]
			x.safety(st, b.And(b.Le(b.Int(0), i), b.Lt(i, x.strlen(st, m.l[0]))), "index out of range", in.Pos())
			nv := Val{t: in.Type(), l: []*Term{x.strAt(m.l[0], i)}}
			x.typeFacts(st, nv)
			return &nv
		}
		has := x.mapHas(st, m, idx)
		raw := x.mapGet(st, m, idx)
		z := x.zero(raw.t)
		out := Val{t: in.Type()}
		for q := range raw.l {
			out.l = append(out.l, b.Ite(has, raw.l[q], z.l[q]))
		}
		x.typeFacts(st, Val{t: raw.t, l: out.l})
		if in.CommaOk {
			out.l = append(out.l, has)
		}
		return &out
	case *ssa.UnOp:
		p := x.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			x.nilCheck(st, p, "nil pointer dereference", in.Pos())
			nv := x.load(st, p.l[0], in.Type())
			x.typeFacts(st, nv)
			if lc := x.locs[p.l[0]]; lc != nil && lc.kind != "global" {
				if _, ok := in.Type().Underlying().(*types.Signature); ok {
					x.originByLoc(nv, lc)
				}
			}
			return &nv
		case token.NOT:
			return ret(in.Type(), b.Not(p.l[0]))
		case token.SUB:
			return ret(in.Type(), x.arith(st, token.SUB, b.Int(0), p.l[0], in.Type()))
		}
		x.unsup("unary %s", in.Op)
	case *ssa.BinOp:
		l, r := x.val(fr, st, in.X), x.val(fr, st, in.Y)
		return x.binop(st, in, l, r)
	case *ssa.ChangeInterface:
		return ret(in.Type(), x.val(fr, st, in.X).l...)
	case *ssa.ChangeType:
		o := x.val(fr, st, in.X)
		if _, tp := types.Unalias(in.X.Type()).(*types.TypeParam); tp && isIfaceT(in.Type()) {
			o.t = in.X.Type()
			return ret(in.Type(), x.box(st, o)...)
		}
		return ret(in.Type(), o.l...)
	case *ssa.Convert:
		return x.convert(st, in.Type(), x.val(fr, st, in.X))
	case *ssa.MakeInterface:
		o := x.val(fr, st, in.X)
		o.t = in.X.Type()
		nv := Val{t: in.Type(), l: x.box(st, o)}
		x.onBox(st, o, nv)
		return &nv
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Extract:
		tv := x.val(fr, st, in.Tuple)
		tup := in.Tuple.Type().(*types.Tuple)
		off := 0
		for k := 0; k < in.Index; k++ {
			off += nleaves(tup.At(k).Type())
		}
		t := tup.At(in.Index).Type()
		return ret(in.Type(), tv.l[off:off+nleaves(t)]...)
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, bd := range in.Bindings {
			f.bind = append(f.bind, x.val(fr, st, bd))
		}
		nv := x.funcVal(f, in.Type())
		return &nv
	case *ssa.MakeMap:
		nv := x.mapNew(st, in.Type())
		return &nv
	case *ssa.MakeSlice:
		ln, cp := x.val(fr, st, in.Len).l[0], x.val(fr, st, in.Cap).l[0]
		x.safety(st, b.And(b.Le(b.Int(0), ln), b.Le(ln, cp)), "makeslice: len out of range", in.Pos())
		base := x.alloc(st)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for q, lf := range leavesOf(et) {
			k, _ := elemLeafKey(et, q)
			x.wrRegion(st, k, lf, base, b.ConstArr(arrSort("Int", lf.sort), x.zeroLeaf(lf)))
		}
		x.fact(st, b.Le(cp, b.Big(maxI64)))
		return ret(in.Type(), base, b.Int(0), ln, cp)
	case *ssa.Slice:
		return x.sliceOp(fr, st, in)
	case *ssa.Range:
		return ret(in.Type(), x.val(fr, st, in.X).l...)
	case *ssa.Next:
		// an arbitrary element
		rg := in.Iter.(*ssa.Range)
		ok := b.Fresh("next.ok", "Bool")
		tup := in.Type().(*types.Tuple)
		out := Val{t: in.Type(), l: []*Term{ok}}
		if mt, is := rg.X.Type().Underlying().(*types.Map); is {
			m := x.val(fr, st, rg.X)
			k := x.freshVal(st, "next.k", mt.Key())
			x.fact(st, b.Implies(ok, x.mapHas(st, m, k)))
			vv := x.mapGet(st, m, k)
			if isInvalid(tup.At(1).Type()) {
				out.l = append(out.l, x.freshVal(nil, "next.u", tup.At(1).Type()).l...)
			} else {
				out.l = append(out.l, k.l...)
			}
			if isInvalid(tup.At(2).Type()) {
				out.l = append(out.l, x.freshVal(nil, "next.u", tup.At(2).Type()).l...)
			} else {
				x.typeFacts(st, vv)
				out.l = append(out.l, vv.l...)
			}
			return &out
		}
		for k := 1; k < tup.Len(); k++ {
			out.l = append(out.l, x.freshVal(st, "next.s", tup.At(k).Type()).l...)
		}
		return &out
	}
	x.unsup("instruction %T in %s", v, fr.fn)
	return nil
}

func isInvalid(t types.Type) bool {
	bt, ok := t.(*types.Basic)
	return ok && bt.Kind() == types.Invalid
}

func (x *Exec) noteOrigin(v Val, structT types.Type, field int) {
	if _, ok := v.t.Underlying().(*types.Signature); ok {
		f := structT.Underlying().(*types.Struct).Field(field)
		x.forigin[v.l[0]] = typeKey(structT) + "." + f.Name()
	}
}
func (x *Exec) originByLoc(v Val, lc *Loc) {
	if lc.kind == "field" || lc.kind == "elem" {
		if st, ok := lc.st.Underlying().(*types.Struct); ok {
			off := 0
			for i := 0; i < st.NumFields(); i++ {
				if off == lc.off {
					x.forigin[v.l[0]] = typeKey(lc.st) + "." + st.Field(i).Name()
					if lc.kind == "field" {
						x.fowner[v.l[0]] = Val{t: types.NewPointer(lc.st), l: []*Term{lc.ref}}
					}
				}
				off += nleaves(st.Field(i).Type())
			}
		}
	}
}

func (x *Exec) strlen(st *State, s *Term) *Term {
	if isStrLit(s) {
		return x.b.Int(int64(len(s.name) - 4))
	}
	t := x.b.UF("strlen", "Int", s)
	if !t.open {
		x.fact(st, x.b.Le(x.b.Int(0), t))
		x.fact(st, x.b.Iff(x.b.Eq(t, x.b.Int(0)), x.b.Eq(s, x.strLit(""))))
	}
	return t
}
func (x *Exec) strAt(s, i *Term) *Term {
	if isStrLit(s) && i.op == "int" {
		k := int(i.big.Int64())
		if k >= 0 && k < len(s.name)-4 {
			return x.b.Int(int64(s.name[4+k]))
		}
	}
	return x.b.UF("strat", "Int", s, i)
}

func (x *Exec) arith(st *State, op token.Token, l, r *Term, t types.Type) *Term {
	b := x.b
	lf := leavesOf(t)[0]
	var res *Term
	switch op {
	case token.ADD:
		res = b.Add(l, r)
	case token.SUB:
		res = b.Sub(l, r)
	case token.MUL:
		res = b.Mul(l, r)
	}
	if lf.kind == "uint" {
		mod := b.Big(new(big.Int).Lsh(big.NewInt(1), uint(lf.bits)))
		if res.op == "int" {
			return b.Big(new(big.Int).Mod(res.big, mod.big))
		}
		switch op {
		case token.ADD:
			return b.Ite(b.Lt(res, mod), res, b.Sub(res, mod))
		case token.SUB:
			return b.Ite(b.Le(b.Int(0), res), res, b.Add(res, mod))
		default:
			return b.mk("mod", "", "Int", res, mod)
		}
	}
	return res
}

func (x *Exec) binop(st *State, in *ssa.BinOp, l, r Val) *Val {
	b := x.b
	bv := func(t *Term) *Val { return &Val{t: in.Type(), l: []*Term{t}} }
	srt := ""
	if len(l.l) > 0 {
		srt = l.l[0].sort
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		l.t, r.t = in.X.Type(), in.Y.Type()
		var t *Term
		if _, sl := l.t.Underlying().(*types.Slice); sl {
			// only comparison with nil is allowed
			if c, ok := in.Y.(*ssa.Const); ok && c.Value == nil {
				t = b.Eq(l.l[0], b.Int(0))
			} else {
				t = b.Eq(r.l[0], b.Int(0))
			}
		} else if _, fn := l.t.Underlying().(*types.Signature); fn {
			t = b.Eq(l.l[0], r.l[0])
		} else {
			t = x.valEq(l, r)
		}
		if in.Op == token.NEQ {
			t = b.Not(t)
		}
		return bv(t)
	}
	if srt == "Int" {
		a, c := l.l[0], r.l[0]
		switch in.Op {
		case token.ADD, token.SUB, token.MUL:
			return bv(x.arith(st, in.Op, a, c, in.Type()))
		case token.LSS:
			return bv(b.Lt(a, c))
		case token.LEQ:
			return bv(b.Le(a, c))
		case token.GTR:
			return bv(b.Lt(c, a))
		case token.GEQ:
			return bv(b.Le(c, a))
		case token.QUO:
			x.safety(st, b.Not(b.Eq(c, b.Int(0))), "integer divide by zero", in.Pos())
			if leavesOf(in.Type())[0].kind == "uint" || (c.op == "int" && c.big.Sign() > 0) {
				if leavesOf(in.Type())[0].kind == "uint" {
					return bv(b.mk("div", "", "Int", a, c))
				}
				// truncated division
				neg := b.Sub(b.Int(0), b.mk("div", "", "Int", b.Sub(b.Int(0), a), c))
				return bv(b.Ite(b.Le(b.Int(0), a), b.mk("div", "", "Int", a, c), neg))
			}
		}
		nv := x.freshVal(st, "arith", in.Type())
		return &nv
	}
	if srt == "Str" {
		switch in.Op {
		case token.ADD:
			return bv(x.strcat(l.l[0], r.l[0]))
		case token.LSS:
			return bv(b.UF("strlt", "Bool", l.l[0], r.l[0]))
		case token.GTR:
			return bv(b.UF("strlt", "Bool", r.l[0], l.l[0]))
		case token.LEQ:
			return bv(b.Not(b.UF("strlt", "Bool", r.l[0], l.l[0])))
		case token.GEQ:
			return bv(b.Not(b.UF("strlt", "Bool", l.l[0], r.l[0])))
		}
	}
	if srt == "Bool" {
		switch in.Op {
		case token.AND:
			return bv(b.And(l.l[0], r.l[0]))
		case token.OR:
			return bv(b.Or(l.l[0], r.l[0]))
		}
	}
	nv := x.freshVal(st, "binop", in.Type())
	return &nv
}

func (x *Exec) convert(st *State, t types.Type, v Val) *Val {
	b := x.b
	fl, tl := leavesOf(v.t), leavesOf(t)
	if len(fl) == 1 && len(tl) == 1 && fl[0].sort == "Int" && tl[0].sort == "Int" && fl[0].kind != "ref" && tl[0].kind != "ref" {
		if tl[0].kind == fl[0].kind && tl[0].bits >= fl[0].bits {
			return &Val{t: t, l: v.l}
		}
		if tl[0].kind == "uint" {
			mod := b.Big(new(big.Int).Lsh(big.NewInt(1), uint(tl[0].bits)))
			r := v.l[0]
			if r.op == "int" {
				return &Val{t: t, l: []*Term{b.Big(new(big.Int).Mod(r.big, mod.big))}}
			}
			in := b.And(b.Le(b.Int(0), r), b.Lt(r, mod))
			return &Val{t: t, l: []*Term{b.Ite(in, r, b.mk("mod", "", "Int", r, mod))}}
		}
		// to signed: exact where it fits
		r := v.l[0]
		half := new(big.Int).Lsh(big.NewInt(1), uint(tl[0].bits-1))
		fr := b.Fresh("conv", "Int")
		in := b.And(b.Le(b.Big(new(big.Int).Neg(half)), r), b.Lt(r, b.Big(half)))
		if in == b.True {
			return &Val{t: t, l: v.l}
		}
		return &Val{t: t, l: []*Term{b.Ite(in, r, fr)}}
	}
	if len(fl) == len(tl) {
		same := true
		for i := range fl {
			if fl[i].sort != tl[i].sort || fl[i].kind != tl[i].kind {
				same = false
			}
		}
		if same {
			return &Val{t: t, l: v.l}
		}
	}
	if len(fl) == 1 && fl[0].sort == "Str" && len(tl) == 4 {
		// []byte(string): fresh copy
		base := x.alloc(st)
		ln := x.strlen(st, v.l[0])
		et := t.Underlying().(*types.Slice).Elem()
		k, lf := elemLeafKey(et, 0)
		x.wrRegion(st, k, lf, base, b.UF("strbytes:"+typeKey(et), arrSort("Int", "Int"), v.l[0]))
		return &Val{t: t, l: []*Term{base, b.Int(0), ln, ln}}
	}
	if len(tl) == 1 && tl[0].sort == "Str" && len(fl) == 4 {
		et := v.t.Underlying().(*types.Slice).Elem()
		k, lf := elemLeafKey(et, 0)
		return &Val{t: t, l: []*Term{b.UF("bytesstr:"+typeKey(et), "Str", x.rdRegion(st, k, lf, v.l[0]), v.l[1], v.l[2])}}
	}
	nv := x.freshVal(st, "convert", t)
	return &nv
}

func (x *Exec) typeAssert(fr *frame, st *State, in *ssa.TypeAssert) *Val {
	b := x.b
	v := x.val(fr, st, in.X)
	var ok *Term
	var res Val
	if isIfaceT(in.AssertedType) {
		ok = x.implTerm(in.AssertedType, v.l[0])
		res = Val{t: in.AssertedType, l: v.l}
	} else {
		ok = b.Eq(v.l[0], x.typeTag(in.AssertedType))
		res = x.unbox(v.l[1], in.AssertedType)
	}
	ok = x.decided(st, ok)
	if !in.CommaOk {
		x.safety(st, ok, fmt.Sprintf("type assertion to %s", typeKey(in.AssertedType)), in.Pos())
		x.typeFacts(st, res)
		return &Val{t: in.Type(), l: res.l}
	}
	z := x.zero(in.AssertedType)
	out := Val{t: in.Type()}
	for i := range res.l {
		out.l = append(out.l, b.Ite(ok, res.l[i], z.l[i]))
	}
	x.typeFacts(st, Val{t: in.AssertedType, l: out.l})
	out.l = append(out.l, ok)
	return &out
}

func (x *Exec) sliceOp(fr *frame, st *State, in *ssa.Slice) *Val {
	b := x.b
	s := x.val(fr, st, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(fr, st, v).l[0]
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		n := b.Int(at.Len())
		lo, hi := get(in.Low, b.Int(0)), get(in.High, n)
		x.safety(st, b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n)), "slice bounds out of range", in.Pos())
		if x.locs[s.l[0]] != nil {
			x.unsup("slice of embedded array")
		}
		return &Val{t: in.Type(), l: []*Term{s.l[0], lo, b.Sub(hi, lo), b.Sub(n, lo)}}
	case *types.Slice:
		lo, hi := get(in.Low, b.Int(0)), get(in.High, s.l[2])
		mx := get(in.Max, s.l[3])
		x.safety(st, b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, s.l[3])), "slice bounds out of range", in.Pos())
		return &Val{t: in.Type(), l: []*Term{s.l[0], b.Add(s.l[1], lo), b.Sub(hi, lo), b.Sub(mx, lo)}}
	case *types.Basic:
		lo := get(in.Low, b.Int(0))
		hi := get(in.High, x.strlen(st, s.l[0]))
		x.safety(st, b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, x.strlen(st, s.l[0]))), "slice bounds out of range", in.Pos())
		return &Val{t: in.Type(), l: []*Term{b.UF("substr", "Str", s.l[0], lo, hi)}}
	}
	x.unsup("slice of %v", in.X.Type())
	return nil
}

func (x *Exec) pureUF(name string, t types.Type, args ...Val) Val {
	var ls []*Term
	for _, a := range args {
		ls = append(ls, a.l...)
	}
	v := Val{t: t}
	for i, lf := range leavesOf(t) {
		v.l = append(v.l, x.b.UF(fmt.Sprintf("%s#%d", name, i), lf.sort, ls...))
	}
	return v
}

// onBox adds the declared facts about repository types stored in interfaces.
func (x *Exec) onBox(st *State, v, iv Val) {
	cls := x.v.spec.onbox[strings.TrimPrefix(typeKey(v.t), "*")]
	for _, c := range cls {
		if !c.in(x.view) {
			continue
		}
		env := &SEnv{vars: map[string]Val{"this": {t: types.Universe.Lookup("error").Type(), l: iv.l}}, st: st, old: st, pkg: repoPath, hwOld: st.hw}
		if n, ok := types.Unalias(v.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			env.pkg = n.Obj().Pkg().Path()
		}
		x.fact(st, x.evBool(c.expr, env))
	}
}

// merge joins the normal outcomes of a call that left the heap alike.
func (x *Exec) merge(st0 *State, outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	b := x.b
	n0 := len(st0.pc)
	type group struct{ idx []int }
	var groups []*group
	for i, o := range outs {
		if o.panicked {
			groups = append(groups, &group{[]int{i}})
			continue
		}
		placed := false
		for _, g := range groups {
			p := outs[g.idx[0]]
			if !p.panicked && x.mergeable(p, o) {
				g.idx = append(g.idx, i)
				placed = true
				break
			}
		}
		if !placed {
			groups = append(groups, &group{[]int{i}})
		}
	}
	var res []Outcome
	for _, g := range groups {
		if len(g.idx) == 1 {
			res = append(res, outs[g.idx[0]])
			continue
		}
		ns := st0.clone()
		first := outs[g.idx[0]]
		ns.heap = map[string]*Term{}
		for k, v := range first.st.heap {
			ns.heap[k] = v
		}
		ns.hw, ns.epoch = first.st.hw, first.st.epoch
		var guards []*Term
		for _, i := range g.idx {
			var gs []*Term
			for _, f := range outs[i].st.pc[n0:] {
				if f.branch {
					gs = append(gs, f.t)
				}
			}
			guards = append(guards, b.And(gs...))
		}
		// facts common to all outcomes hold outright
		common := map[*Term]int{}
		for _, i := range g.idx {
			for _, f := range outs[i].st.pc[n0:] {
				if !f.branch {
					common[f.t]++
				}
			}
		}
		for k, i := range g.idx {
			for _, f := range outs[i].st.pc[n0:] {
				if !f.branch {
					if common[f.t] == len(g.idx) {
						x.fact(ns, f.t)
					} else {
						x.fact(ns, b.Implies(guards[k], f.t))
					}
				}
			}
		}
		all := b.Or(guards...)
		if len(groups) > 1 {
			x.branch(ns, all)
		} else {
			x.fact(ns, all)
		}
		last := outs[g.idx[len(g.idx)-1]]
		rs := make([]Val, len(last.res))
		for r := range last.res {
			rs[r] = Val{t: last.res[r].t, l: append([]*Term{}, last.res[r].l...)}
			for k := len(g.idx) - 2; k >= 0; k-- {
				o := outs[g.idx[k]]
				for q := range rs[r].l {
					rs[r].l[q] = b.Ite(guards[k], o.res[r].l[q], rs[r].l[q])
				}
			}
		}
		res = append(res, Outcome{st: ns, res: rs})
	}
	return res
}

func (x *Exec) mergeable(p, o Outcome) bool {
	if p.st.hw != o.st.hw || p.st.epoch != o.st.epoch || len(p.st.heap) != len(o.st.heap) {
		return false
	}
	for k, v := range p.st.heap {
		if o.st.heap[k] != v {
			return false
		}
	}
	for i := range p.res {
		for q := range p.res[i].l {
			a, c := p.res[i].l[q], o.res[i].l[q]
			if a != c && (x.locs[a] != nil || x.locs[c] != nil || x.funcs[a] != nil || x.funcs[c] != nil || x.boxed[a].t != nil || x.boxed[c].t != nil) {
				return false
			}
			if a != c && a.sort == "Int" {
				// interface values with different known dynamic types stay apart
				if a.op == "int" && c.op == "int" && isIfaceLeaf(p.res[i].t, q) {
					return false
				}
			}
		}
	}
	return true
}

func isIfaceLeaf(t types.Type, q int) bool {
	ls := leavesOf(t)
	return q < len(ls) && ls[q].kind == "tag"
}
