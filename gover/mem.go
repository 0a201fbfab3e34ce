package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a Go value: the list of its leaves.
type Val struct {
	t types.Type
	l []*Term
	// spec-only: element arrays of a list valued pure function
	arr []*Term
}

type Fact struct {
	t      *Term
	branch bool
}

type State struct {
	pc    []Fact
	facts map[*Term]bool
	heap  map[string]*Term
	hw    *Term
	epoch int // generation of lazily created unprotected heap constants
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], hw: s.hw, epoch: s.epoch}
	n.facts = make(map[*Term]bool, len(s.facts))
	for k := range s.facts {
		n.facts[k] = true
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

// Loc is an address that is not a plain object reference.
type Loc struct {
	kind string // "field", "elem", "global"
	t    types.Type
	st   types.Type // field: the struct type; elem: the element type
	ref  *Term      // field: object; elem: base
	idx  *Term      // elem: absolute index
	off  int        // leaf offset
	g    *ssa.Global
}

type FuncV struct {
	fn     *ssa.Function
	bind   []Val
	clo    *Closure // contract of an opaque function value
	cenv   map[string]Val
	cst    *State // state in which the closure contract's outer names are read
	origin string
}

type unsupported struct{ msg string }

func (x *Exec) unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

func (x *Exec) fact(st *State, t *Term) { x.addFact(st, t, false) }
func (x *Exec) branch(st *State, t *Term) {
	x.addFact(st, t, true)
}
func (x *Exec) addFact(st *State, t *Term, br bool) {
	if t == x.b.True {
		return
	}
	if t.op == "and" && !br {
		for _, a := range t.args {
			x.addFact(st, a, br)
		}
		return
	}
	if st.facts[t] {
		return
	}
	if t.open {
		panic("open fact " + t.String())
	}
	st.facts[t] = true
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], Fact{t, br})
}

// dead reports syntactic inconsistency.
func (x *Exec) dead(st *State) bool {
	if st.facts[x.b.False] {
		return true
	}
	return false
}

// decided evaluates a condition against the facts on the path, syntactically.
func (x *Exec) decided(st *State, c *Term) *Term {
	if c == x.b.True || c == x.b.False {
		return c
	}
	if st.facts[c] {
		return x.b.True
	}
	if st.facts[x.b.Not(c)] {
		return x.b.False
	}
	return c
}

// typeFacts states what every value of the type satisfies.
func (x *Exec) typeFacts(st *State, v Val) {
	b := x.b
	ls := leavesOf(v.t)
	for i := 0; i < len(ls) && i < len(v.l); i++ {
		t := v.l[i]
		if t.open || x.locs[t] != nil {
			continue
		}
		switch ls[i].kind {
		case "uint":
			if t.op == "int" {
				continue
			}
			x.fact(st, b.Le(b.Int(0), t))
			x.fact(st, b.Le(t, b.Big(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(ls[i].bits)), big.NewInt(1)))))
		case "ref":
			if t.op == "int" || x.funcs[t] != nil {
				continue
			}
			x.fact(st, b.Le(b.Int(0), t))
			x.fact(st, b.Le(t, st.hw))
		case "base":
			if t.op == "int" && v.l[i+2].op == "int" {
				continue
			}
			off, ln, cp := v.l[i+1], v.l[i+2], v.l[i+3]
			x.fact(st, b.Le(b.Int(0), t))
			x.fact(st, b.Le(t, st.hw))
			x.fact(st, b.Le(b.Int(0), off))
			x.fact(st, b.Le(b.Int(0), ln))
			x.fact(st, b.Le(ln, cp))
			x.fact(st, b.Le(b.Add(off, cp), b.Big(maxI64)))
			x.fact(st, b.Implies(b.Eq(t, b.Int(0)), b.Eq(cp, b.Int(0))))
		case "tag":
			if t.op == "int" {
				continue
			}
			x.fact(st, b.Le(b.Int(0), t))
			x.fact(st, b.Implies(b.Eq(t, b.Int(0)), b.Eq(v.l[i+1], b.Int(0))))
			x.ifaceFacts(st, Val{t: ls[i].typ, l: v.l[i : i+2]})
		}
	}
}

// ifaceFacts: pointers boxed in an interface are allocated.
func (x *Exec) ifaceFacts(st *State, v Val) {
	b := x.b
	switch v.t.Underlying().(type) {
	case *types.Interface:
		x.fact(st, b.Implies(b.UF("ptrTag", "Bool", v.l[0]), b.And(b.Le(b.Int(0), v.l[1]), b.Le(v.l[1], st.hw))))
	}
}

func structLeafKey(t types.Type, abs int) (string, Leaf) {
	st := t.Underlying().(*types.Struct)
	off := 0
	for i := 0; i < st.NumFields(); i++ {
		ls := leavesOf(st.Field(i).Type())
		if abs < off+len(ls) {
			k := abs - off
			return fmt.Sprintf("F:%s.%s#%d", typeKey(t), st.Field(i).Name(), k), ls[k]
		}
		off += len(ls)
	}
	panic(fmt.Sprint("structLeafKey ", t, abs))
}
func elemLeafKey(t types.Type, abs int) (string, Leaf) {
	return fmt.Sprintf("E:%s#%d", typeKey(t), abs), leavesOf(t)[abs]
}
func cellLeafKey(t types.Type, abs int) (string, Leaf) {
	return fmt.Sprintf("C:%s#%d", typeKey(t), abs), leavesOf(t)[abs]
}

// H reads a heap component, creating the constant for its initial contents.
func (x *Exec) H(st *State, key string, sort string, lf Leaf) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	ep := 0
	if !x.protected(key) {
		ep = st.epoch
	}
	name := key + "@" + fmt.Sprint(ep)
	return x.heapConst(name, sort, lf)
}

func (x *Exec) heapConst(name, sort string, lf Leaf) *Term {
	c := x.b.Const(name, sort)
	if _, ok := x.axioms[c]; !ok {
		x.axioms[c] = nil
		if lf.kind == "uint" {
			b := x.b
			var vars []*Term
			sel := c
			s := sort
			for strings.HasPrefix(s, "(Array ") {
				ks := strings.Fields(s[7:])[0]
				v := b.BV("i", 100+len(vars), ks)
				vars = append(vars, v)
				sel = b.Select(sel, v)
				s = elemSort(s)
			}
			mx := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(lf.bits)), big.NewInt(1))
			x.axioms[c] = append(x.axioms[c], b.Forall(vars, b.And(b.Le(b.Int(0), sel), b.Le(sel, b.Big(mx))), sel))
		}
	}
	return c
}

func (x *Exec) keyMeta(key string, sort string, lf Leaf) {
	x.keyInfo[key] = keyInfo{sort, lf}
}

type keyInfo struct {
	sort string
	lf   Leaf
}

func (x *Exec) rd1(st *State, key string, lf Leaf, ref *Term) *Term {
	srt := arrSort("Int", lf.sort)
	x.keyMeta(key, srt, lf)
	return x.b.Select(x.H(st, key, srt, lf), ref)
}
func (x *Exec) wr1(st *State, key string, lf Leaf, ref, v *Term) {
	srt := arrSort("Int", lf.sort)
	x.keyMeta(key, srt, lf)
	st.heap[key] = x.b.Store(x.H(st, key, srt, lf), ref, v)
	x.noteWrite(key, ref)
}
func (x *Exec) rd2(st *State, key string, lf Leaf, base, idx *Term) *Term {
	srt := arrSort("Int", arrSort("Int", lf.sort))
	x.keyMeta(key, srt, lf)
	return x.b.Select(x.b.Select(x.H(st, key, srt, lf), base), idx)
}
func (x *Exec) rdRegion(st *State, key string, lf Leaf, base *Term) *Term {
	srt := arrSort("Int", arrSort("Int", lf.sort))
	x.keyMeta(key, srt, lf)
	return x.b.Select(x.H(st, key, srt, lf), base)
}
func (x *Exec) wrRegion(st *State, key string, lf Leaf, base, arr *Term) {
	srt := arrSort("Int", arrSort("Int", lf.sort))
	x.keyMeta(key, srt, lf)
	st.heap[key] = x.b.Store(x.H(st, key, srt, lf), base, arr)
	x.noteWrite(key, base)
}
func (x *Exec) wr2(st *State, key string, lf Leaf, base, idx, v *Term) {
	r := x.rdRegion(st, key, lf, base)
	x.wrRegion(st, key, lf, base, x.b.Store(r, idx, v))
}

func (x *Exec) noteWrite(key string, ref *Term) {
	if x.onWrite != nil {
		x.onWrite(key, ref)
	}
}

// load reads a value of type t through pointer p.
func (x *Exec) load(st *State, p *Term, t types.Type) Val {
	v := Val{t: t}
	n := nleaves(t)
	if lc := x.locs[p]; lc != nil {
		switch lc.kind {
		case "global":
			gv := x.globalVal(st, lc.g)
			v.l = append(v.l, gv.l[lc.off:lc.off+n]...)
		case "field":
			for i := 0; i < n; i++ {
				k, lf := structLeafKey(lc.st, lc.off+i)
				v.l = append(v.l, x.rd1(st, k, lf, lc.ref))
			}
		case "elem":
			for i := 0; i < n; i++ {
				k, lf := elemLeafKey(lc.st, lc.off+i)
				v.l = append(v.l, x.rd2(st, k, lf, lc.ref, lc.idx))
			}
		}
		return v
	}
	if isRepoStruct(t) {
		for i := 0; i < n; i++ {
			k, lf := structLeafKey(t, i)
			v.l = append(v.l, x.rd1(st, k, lf, p))
		}
		return v
	}
	if at, ok := t.Underlying().(*types.Array); ok && n > 0 {
		el := at.Elem()
		en := nleaves(el)
		for i := 0; i < n; i++ {
			k, lf := elemLeafKey(el, i%en)
			v.l = append(v.l, x.rd2(st, k, lf, p, x.b.Int(int64(i/en))))
		}
		return v
	}
	for i := 0; i < n; i++ {
		k, lf := cellLeafKey(t, i)
		v.l = append(v.l, x.rd1(st, k, lf, p))
	}
	return v
}

func isRepoStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	if isIterator(t) {
		return false
	}
	return !opaqueStruct(t)
}

func (x *Exec) store(st *State, p *Term, v Val) {
	t := v.t
	n := nleaves(t)
	if lc := x.locs[p]; lc != nil {
		switch lc.kind {
		case "global":
			x.unsup("store to global %s", lc.g.Name())
		case "field":
			for i := 0; i < n; i++ {
				k, lf := structLeafKey(lc.st, lc.off+i)
				x.wr1(st, k, lf, lc.ref, v.l[i])
			}
		case "elem":
			for i := 0; i < n; i++ {
				k, lf := elemLeafKey(lc.st, lc.off+i)
				x.wr2(st, k, lf, lc.ref, lc.idx, v.l[i])
			}
		}
		return
	}
	if isRepoStruct(t) {
		for i := 0; i < n; i++ {
			k, lf := structLeafKey(t, i)
			x.wr1(st, k, lf, p, v.l[i])
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok && n > 0 {
		el := at.Elem()
		en := nleaves(el)
		for i := 0; i < n; i++ {
			k, lf := elemLeafKey(el, i%en)
			x.wr2(st, k, lf, p, x.b.Int(int64(i/en)), v.l[i])
		}
		return
	}
	for i := 0; i < n; i++ {
		k, lf := cellLeafKey(t, i)
		x.wr1(st, k, lf, p, v.l[i])
	}
}

func (x *Exec) zeroLeaf(lf Leaf) *Term {
	switch lf.sort {
	case "Int":
		if lf.kind == "pos" {
			return x.b.Int(-1)
		}
		return x.b.Int(0)
	case "Bool":
		return x.b.False
	case "Str":
		return x.strLit("")
	}
	return x.b.Const("zero:"+typeKey(lf.typ), "U")
}
func (x *Exec) zero(t types.Type) Val {
	v := Val{t: t}
	for _, lf := range leavesOf(t) {
		v.l = append(v.l, x.zeroLeaf(lf))
	}
	return v
}
func (x *Exec) strLit(s string) *Term { return x.b.Const("str:"+s, "Str") }

func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	v := Val{t: t}
	for i, lf := range leavesOf(t) {
		v.l = append(v.l, x.b.Fresh(fmt.Sprintf("%s#%d", name, i), lf.sort))
	}
	if st != nil {
		x.typeFacts(st, v)
	}
	return v
}

// alloc returns a fresh object reference.
func (x *Exec) alloc(st *State) *Term {
	st.hw = x.b.AddK(st.hw, 1)
	return st.hw
}

func (x *Exec) newLoc(l *Loc) *Term {
	// equal locations get equal addresses
	k := fmt.Sprintf("addr:%s:%s:%d", l.kind, typeKeyOr(l.st), l.off)
	switch l.kind {
	case "global":
		k += ":" + l.g.String()
	case "field":
		k += fmt.Sprintf(":%d", l.ref.id)
	case "elem":
		k += fmt.Sprintf(":%d:%d", l.ref.id, l.idx.id)
	}
	k += ":" + typeKey(l.t)
	c := x.b.Const(k, "Int")
	if x.locs[c] == nil {
		x.locs[c] = l
		x.axioms[c] = []*Term{x.b.Lt(c, x.b.Int(0))}
	}
	return c
}
func typeKeyOr(t types.Type) string {
	if t == nil {
		return ""
	}
	return typeKey(t)
}

// boxing in interfaces

func (x *Exec) typeTag(t types.Type) *Term {
	return x.b.Int(int64(x.v.tagOf(t)))
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (x *Exec) box(st *State, v Val) []*Term {
	b := x.b
	if isIfaceT(v.t) {
		return v.l
	}
	if tp, ok := types.Unalias(v.t).(*types.TypeParam); ok {
		// dynamic type unknown: a function of the value
		tag := b.UF("tpTag:"+tp.Obj().Name(), "Int", v.l...)
		if st != nil {
			x.fact(st, b.Le(b.Int(0), tag))
		}
		pay := b.UF("tpBox:"+tp.Obj().Name(), "Int", v.l...)
		x.boxed[pay] = v
		return []*Term{tag, pay}
	}
	tag := x.typeTag(v.t)
	if isPtrLike(v.t) {
		if st != nil {
			x.fact(st, b.UF("ptrTag", "Bool", tag))
		}
		return []*Term{tag, v.l[0]}
	}
	k := typeKey(v.t)
	pay := b.UF("box:"+k, "Int", v.l...)
	if len(v.l) == 0 {
		pay = b.Const("box:"+k, "Int")
	}
	x.boxed[pay] = v
	if st != nil {
		for i, l := range v.l {
			x.fact(st, b.Eq(b.UF(fmt.Sprintf("unbox:%s#%d", k, i), l.sort, pay), l))
		}
	}
	return []*Term{tag, pay}
}

func (x *Exec) unbox(pay *Term, t types.Type) Val {
	if isPtrLike(t) {
		return Val{t: t, l: []*Term{pay}}
	}
	if v, ok := x.boxed[pay]; ok && typeKey(v.t) == typeKey(t) {
		return Val{t: t, l: v.l}
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return Val{t: t, l: []*Term{x.b.UF("tpUnbox:"+tp.Obj().Name(), "U", pay)}}
	}
	v := Val{t: t}
	k := typeKey(t)
	for i, lf := range leavesOf(t) {
		v.l = append(v.l, x.b.UF(fmt.Sprintf("unbox:%s#%d", k, i), lf.sort, pay))
	}
	return v
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// maps

func (x *Exec) mapKeys(mt *types.Map) (has string, hasSort string, vals []string, valSorts []string, ks string) {
	kl := leavesOf(mt.Key())
	var ss []string
	for _, l := range kl {
		ss = append(ss, l.sort)
	}
	ks = ss[0]
	if len(ss) > 1 {
		ks = keySort(ss)
	}
	n := typeKey(mt)
	has = "M:" + n + "#has"
	hasSort = arrSort("Int", arrSort(ks, "Bool"))
	for i, l := range leavesOf(mt.Elem()) {
		vals = append(vals, fmt.Sprintf("M:%s#v%d", n, i))
		valSorts = append(valSorts, arrSort("Int", arrSort(ks, l.sort)))
	}
	return
}

func (x *Exec) mapHasArr(st *State, m *Term, mt *types.Map) *Term {
	has, hs, _, _, _ := x.mapKeys(mt)
	x.keyMeta(has, hs, Leaf{sort: "Bool", kind: "bool"})
	return x.b.Select(x.H(st, has, hs, Leaf{kind: "bool"}), m)
}
func (x *Exec) mapHas(st *State, m Val, k Val) *Term {
	mt := m.t.Underlying().(*types.Map)
	return x.b.And(x.b.Not(x.b.Eq(m.l[0], x.b.Int(0))), x.b.Select(x.mapHasArr(st, m.l[0], mt), x.b.MkKey(k.l)))
}
func (x *Exec) mapGet(st *State, m Val, k Val) Val {
	mt := m.t.Underlying().(*types.Map)
	_, _, vs, vss, _ := x.mapKeys(mt)
	v := Val{t: mt.Elem()}
	key := x.b.MkKey(k.l)
	for i, lf := range leavesOf(mt.Elem()) {
		x.keyMeta(vs[i], vss[i], lf)
		a := x.H(st, vs[i], vss[i], lf)
		v.l = append(v.l, x.b.Select(x.b.Select(a, m.l[0]), key))
	}
	return v
}
func (x *Exec) mapCardKey(mt *types.Map) string { return "M:" + typeKey(mt) + "#card" }
func (x *Exec) mapCard(st *State, m Val) *Term {
	mt := m.t.Underlying().(*types.Map)
	return x.b.Ite(x.b.Eq(m.l[0], x.b.Int(0)), x.b.Int(0), x.rd1(st, x.mapCardKey(mt), Leaf{sort: "Int", kind: "int"}, m.l[0]))
}

// mapCardFacts relates a map's length to its contents.
func (x *Exec) mapCardFacts(st *State, m Val) {
	b := x.b
	mt := m.t.Underlying().(*types.Map)
	card := x.mapCard(st, m)
	arr := x.mapHasArr(st, m.l[0], mt)
	_, _, _, _, ks := x.mapKeys(mt)
	x.fact(st, b.Le(b.Int(0), card))
	k := b.BV("mk", 90, ks)
	x.fact(st, b.Implies(b.Eq(card, b.Int(0)), b.Forall([]*Term{k}, b.Or(b.Eq(m.l[0], b.Int(0)), b.Not(b.Select(arr, k))), b.Select(arr, k))))
	// if there is a key, there is this one
	var wl []*Term
	for i, lf := range leavesOf(mt.Key()) {
		l := b.UF(fmt.Sprintf("mapwit:%s:%d", ks, i), lf.sort, arr)
		if lf.kind == "uint" {
			x.fact(st, b.Le(b.Int(0), l))
		}
		wl = append(wl, l)
	}
	w := b.MkKey(wl)
	x.fact(st, b.Implies(b.Lt(b.Int(0), card), b.Select(arr, w)))
}
func (x *Exec) mapSet(st *State, m Val, k, v Val, present bool) {
	b := x.b
	mt := m.t.Underlying().(*types.Map)
	has, hs, vs, vss, _ := x.mapKeys(mt)
	key := b.MkKey(k.l)
	arr := x.mapHasArr(st, m.l[0], mt)
	was := b.Select(arr, key)
	card := x.rd1(st, x.mapCardKey(mt), Leaf{sort: "Int", kind: "int"}, m.l[0])
	x.fact(st, b.And(b.Le(b.Int(0), card), b.Implies(was, b.Le(b.Int(1), card))))
	H := x.H(st, has, hs, Leaf{kind: "bool"})
	st.heap[has] = b.Store(H, m.l[0], b.Store(arr, key, b.Bool(present)))
	x.noteWrite(has, m.l[0])
	if present {
		for i, lf := range leavesOf(mt.Elem()) {
			x.keyMeta(vs[i], vss[i], lf)
			a := x.H(st, vs[i], vss[i], lf)
			st.heap[vs[i]] = b.Store(a, m.l[0], b.Store(b.Select(a, m.l[0]), key, v.l[i]))
			x.noteWrite(vs[i], m.l[0])
		}
		x.wr1(st, x.mapCardKey(mt), Leaf{sort: "Int", kind: "int"}, m.l[0], b.Add(card, b.Ite(was, b.Int(0), b.Int(1))))
	} else {
		x.wr1(st, x.mapCardKey(mt), Leaf{sort: "Int", kind: "int"}, m.l[0], b.Sub(card, b.Ite(was, b.Int(1), b.Int(0))))
	}
}
func (x *Exec) mapNew(st *State, t types.Type) Val {
	b := x.b
	mt := t.Underlying().(*types.Map)
	r := x.alloc(st)
	has, hs, _, _, ks := x.mapKeys(mt)
	x.keyMeta(has, hs, Leaf{sort: "Bool", kind: "bool"})
	st.heap[has] = b.Store(x.H(st, has, hs, Leaf{kind: "bool"}), r, b.ConstArr(arrSort(ks, "Bool"), b.False))
	x.noteWrite(has, r)
	x.wr1(st, x.mapCardKey(mt), Leaf{sort: "Int", kind: "int"}, r, b.Int(0))
	return Val{t: t, l: []*Term{r}}
}

// slices

func (x *Exec) sliceElem(st *State, s Val, i *Term) Val {
	et := s.t.Underlying().(*types.Slice).Elem()
	v := Val{t: et}
	if s.arr != nil {
		for _, a := range s.arr {
			v.l = append(v.l, x.b.Select(a, i))
		}
		return v
	}
	for k := 0; k < nleaves(et); k++ {
		key, lf := elemLeafKey(et, k)
		v.l = append(v.l, x.rd2(st, key, lf, s.l[0], x.b.SX(s.l[1], i)))
	}
	return v
}

// protected keys: contents that contracts speak about; a call under contract
// leaves them as they are unless it declares otherwise. All others are
// forgotten at such calls.
func (x *Exec) protected(key string) bool { return x.v.protectedKey(key) }
