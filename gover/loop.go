package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	back func(st *State, fr *frame)
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := m[s]
				if li == nil {
					li = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				var work []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range n.Preds {
						if !li.body[p] {
							li.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	return m
}

// cand is a candidate invariant, evaluated at a loop head in any state.
type cand struct {
	name string
	eval func(st *State, env map[ssa.Value]Val) *Term
	auto bool
	spec bool
}

type backEdge struct {
	st  *State
	env map[ssa.Value]Val
}

func (x *Exec) enterLoop(fr *frame, st *State, li *loopInfo) {
	x.loopN++
	b := x.b
	var phis []*ssa.Phi
	for _, in := range li.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entry := st.clone()
	entryEnv := map[ssa.Value]Val{}
	for k, v := range fr.env {
		entryEnv[k] = v
	}
	marker := x.b.n

	mod := map[string]bool{}
	modEpoch := false
	var writes map[string]map[*Term]bool

	// head builds the arbitrary-iteration state. Names are fixed per loop so
	// that candidates can be compared across rounds.
	lid := x.loopN
	head := func(kept []*cand) (*State, *frame) {
		ns := entry.clone()
		nf := fr.fork()
		hw := b.Const(fmt.Sprintf("hw~L%d", lid), "Int")
		ns.hw = hw
		x.fact(ns, b.Le(entry.hw, hw))
		if modEpoch {
			x.nepoch++
			ns.epoch = x.nepoch + 1000
			for k := range ns.heap {
				if !x.protected(k) {
					delete(ns.heap, k)
				}
			}
		}
		for _, k := range sortedSet(mod) {
			ki := x.keyInfo[k]
			ns.heap[k] = x.heapConst(fmt.Sprintf("%s~L%d", k, lid), ki.sort, ki.lf)
		}
		for _, p := range phis {
			v := Val{t: p.Type()}
			for q, lf := range leavesOf(p.Type()) {
				v.l = append(v.l, b.Const(fmt.Sprintf("%s~L%d#%d", p.Name(), lid, q), lf.sort))
			}
			// a phi that never changes syntactically keeps its entry value
			nf.env[p] = v
			x.typeFacts(ns, v)
		}
		for _, c := range kept {
			x.fact(ns, c.eval(ns, nf.env))
		}
		return ns, nf
	}
	dry := func(kept []*cand) []backEdge {
		ns, nf := head(kept)
		var backs []backEdge
		nf.active[li.head] = &loopCtx{back: func(s *State, f *frame) {
			e := map[ssa.Value]Val{}
			for k, v := range f.env {
				e[k] = v
			}
			backs = append(backs, backEdge{s, e})
		}}
		nf.dry = li
		var sink []Outcome
		nf.outs = &sink
		x.quiet++
		sl := x.loopN
		ow := x.onWrite
		x.onWrite = func(key string, ref *Term) {
			if writes[key] == nil {
				writes[key] = map[*Term]bool{}
			}
			writes[key][ref] = true
			if ow != nil {
				ow(key, ref)
			}
		}
		x.runInstrs(nf, ns, li.head, len(phis))
		x.onWrite = ow
		x.loopN = sl
		x.quiet--
		return backs
	}

	// 1. which heap components does an iteration change?
	for round := 0; round < 12; round++ {
		writes = map[string]map[*Term]bool{}
		hs, _ := head(nil)
		backs := dry(nil)
		changed := false
		for _, be := range backs {
			if be.st.epoch != hs.epoch && !modEpoch {
				modEpoch = true
				changed = true
			}
			for _, k := range sortedHeap(be.st.heap) {
				v := be.st.heap[k]
				h, ok := hs.heap[k]
				if !ok {
					ki := x.keyInfo[k]
					h = x.H(hs, k, ki.sort, ki.lf)
				}
				if v != h && !mod[k] {
					mod[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}

	// 2. candidates
	cands := x.candidates(fr, entry, entryEnv, li, phis, mod, writes, marker, fmt.Sprintf("hw~L%d", lid))
	// initiation
	goals := make([]*Term, len(cands))
	for i, c := range cands {
		goals[i] = c.eval(entry, entryEnv)
	}
	ok := x.prove(entry.pc, goals, "loop entry")
	var kept []*cand
	for i, c := range cands {
		if ok[i] {
			kept = append(kept, c)
		} else if debugLoops {
			fmt.Printf("    [%s L%d] not initial: %s\n", x.rootName, lid, c.name)
		}
	}
	// consecution
	for round := 0; ; round++ {
		backs := dry(kept)
		drop := map[*cand]bool{}
		for _, be := range backs {
			var cs []*cand
			var gs []*Term
			var sp []int
			for _, c := range kept {
				if !drop[c] {
					cs = append(cs, c)
					gs = append(gs, c.eval(be.st, be.env))
					sp = append(sp, c.effort())
				}
			}
			if v := os.Getenv("GOVER_LOOPDEAD"); v != "" {
				fmt.Println("BACK EDGE", x.rootName, lid, round, "dead:", x.v.sol.infeasible(x, be.st.pc))
			}
			r := x.prove(be.st.pc, gs, "loop step", sp...)
			for i := range cs {
				if !r[i] {
					drop[cs[i]] = true
					if debugLoops {
						fmt.Printf("    [%s L%d] not inductive: %s\n", x.rootName, lid, cs[i].name)
					}
				}
			}
		}
		if len(drop) == 0 {
			x.stats.addInv(len(kept) * (1 + len(backs)))
			break
		}
		var nk []*cand
		for _, c := range kept {
			if !drop[c] {
				nk = append(nk, c)
			}
		}
		kept = nk
		if round > 40 {
			x.unsup("loop invariants do not stabilise")
		}
	}
	if x.quiet == 0 {
		var ns []string
		for _, c := range kept {
			ns = append(ns, c.name)
		}
		sort.Strings(ns)
		x.loopLog = append(x.loopLog, fmt.Sprintf("%s loop %d: %d invariants", fr.fn.Name(), lid, len(kept)))
		if debugLoops {
			fmt.Printf("  [%s L%d in %s] kept %d: %s\n", x.rootName, lid, fr.fn, len(kept), strings.Join(ns, " ; "))
		}
	}
	// 3. go on from an arbitrary iteration
	ns, nf := head(kept)
	nf.active[li.head] = &loopCtx{back: func(s *State, f *frame) {}}
	x.runInstrs(nf, ns, li.head, len(phis))
}

var debugLoops bool

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// effort: how hard to try to keep the candidate.
func (c *cand) effort() int {
	switch {
	case c.spec:
		return 12000000
	case c.auto:
		return 1000000
	case strings.HasPrefix(c.name, "frame") || strings.HasPrefix(c.name, "rootframe"):
		return 1000000
	}
	return 0
}

// loopInvariantTerm: built from constants that existed before the loop.
func (x *Exec) loopInvariantTerm(t *Term, marker int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := true
	if t.op == "const" && t.id >= marker && !strings.HasPrefix(t.name, "str:") && !strings.Contains(t.name, "@") {
		r = false
	}
	for _, a := range t.args {
		if !x.loopInvariantTerm(a, marker, memo) {
			r = false
		}
	}
	memo[t] = r
	return r
}

func (x *Exec) candidates(fr *frame, entry *State, entryEnv map[ssa.Value]Val, li *loopInfo, phis []*ssa.Phi, mod map[string]bool, writes map[string]map[*Term]bool, marker int, hwName string) []*cand {
	b := x.b
	var out []*cand
	add := func(name string, f func(st *State, env map[ssa.Value]Val) *Term) {
		out = append(out, &cand{name: name, eval: f})
	}
	// values available before the loop
	type nv struct {
		name string
		t    *Term
	}
	var bounds []nv
	seenB := map[*Term]bool{}
	addB := func(n string, t *Term) {
		if !seenB[t] && !t.open {
			seenB[t] = true
			bounds = append(bounds, nv{n, t})
		}
	}
	var vals []ssa.Value
	for v := range entryEnv {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool {
		a, b := vals[i], vals[j]
		if a.Name() != b.Name() {
			return a.Name() < b.Name()
		}
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		if p, q := fmt.Sprint(a.Parent()), fmt.Sprint(b.Parent()); p != q {
			return p < q
		}
		return a.String() < b.String()
	})
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	for _, v := range vals {
		if isPhi[v] {
			continue
		}
		ev := entryEnv[v]
		switch v.Type().Underlying().(type) {
		case *types.Slice:
			addB("len("+v.Name()+")", ev.l[2])
		case *types.Basic:
			if lf := leavesOf(v.Type())[0]; lf.sort == "Int" {
				addB(v.Name(), ev.l[0])
			}
		}
	}
	// lengths of slices held in fields of pointer parameters are bounds too
	for _, p := range x.root.Params {
		_ = p
	}
	// slices loaded inside the loop from loop-invariant places
	var blks []*ssa.BasicBlock
	for blk := range li.body {
		blks = append(blks, blk)
	}
	sort.Slice(blks, func(i, j int) bool { return blks[i].Index < blks[j].Index })
	for _, blk := range blks {
		for _, in := range blk.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok {
				continue
			}
			if _, sl := u.Type().Underlying().(*types.Slice); !sl {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			pv, ok := entryEnv[fa.X]
			if !ok || x.locs[pv.l[0]] != nil {
				continue
			}
			stt := deref(fa.X.Type())
			off, _ := fieldOff(stt.Underlying().(*types.Struct), fa.Field)
			if !isRepoStruct(stt) {
				continue
			}
			k, lf := structLeafKey(stt, off+2)
			if mod[k] {
				continue
			}
			addB("len(."+stt.Underlying().(*types.Struct).Field(fa.Field).Name()+")", x.rd1(entry, k, lf, pv.l[0]))
		}
	}
	for _, p := range phis {
		p := p
		e := entryEnv[p]
		switch p.Type().Underlying().(type) {
		case *types.Basic:
			lf := leavesOf(p.Type())[0]
			if lf.sort == "Int" {
				add(p.Name()+">=entry", func(st *State, env map[ssa.Value]Val) *Term { return b.Le(e.l[0], env[p].l[0]) })
				add(p.Name()+"<=entry", func(st *State, env map[ssa.Value]Val) *Term { return b.Le(env[p].l[0], e.l[0]) })
				for _, w := range bounds {
					w := w
					add(p.Name()+"<"+w.name, func(st *State, env map[ssa.Value]Val) *Term { return b.Lt(env[p].l[0], w.t) })
					add(p.Name()+"<="+w.name, func(st *State, env map[ssa.Value]Val) *Term { return b.Le(env[p].l[0], w.t) })
				}
				for _, q := range phis {
					q := q
					if q == p {
						continue
					}
					if _, ok := q.Type().Underlying().(*types.Basic); ok && leavesOf(q.Type())[0].sort == "Int" {
						add(p.Name()+"<="+q.Name(), func(st *State, env map[ssa.Value]Val) *Term { return b.Le(env[p].l[0], env[q].l[0]) })
						d := b.Sub(entryEnv[p].l[0], entryEnv[q].l[0])
						add(p.Name()+"-"+q.Name()+"=entry", func(st *State, env map[ssa.Value]Val) *Term {
							return b.Eq(b.Sub(env[p].l[0], env[q].l[0]), d)
						})
					}
				}
			}
		case *types.Slice:
			add(p.Name()+" base old or fresh", func(st *State, env map[ssa.Value]Val) *Term {
				return b.Or(b.Eq(env[p].l[0], e.l[0]), b.Lt(entry.hw, env[p].l[0]))
			})
			add(p.Name()+" base same", func(st *State, env map[ssa.Value]Val) *Term { return b.Eq(env[p].l[0], e.l[0]) })
			add(p.Name()+" nil or fresh", func(st *State, env map[ssa.Value]Val) *Term {
				return b.Or(b.Eq(env[p].l[0], b.Int(0)), b.Lt(entry.hw, env[p].l[0]))
			})
			add(p.Name()+" off same", func(st *State, env map[ssa.Value]Val) *Term { return b.Eq(env[p].l[1], e.l[1]) })
			add(p.Name()+" cap same", func(st *State, env map[ssa.Value]Val) *Term { return b.Eq(env[p].l[3], e.l[3]) })
			for _, q := range phis {
				q := q
				if q.Name() <= p.Name() {
					continue
				}
				if _, ok := q.Type().Underlying().(*types.Slice); ok {
					add(p.Name()+" apart from "+q.Name(), func(st *State, env map[ssa.Value]Val) *Term {
						return b.Or(b.Eq(env[p].l[0], b.Int(0)), b.Eq(env[q].l[0], b.Int(0)), b.Not(b.Eq(env[p].l[0], env[q].l[0])))
					})
				}
			}
			add(p.Name()+" len>=entry", func(st *State, env map[ssa.Value]Val) *Term { return b.Le(e.l[2], env[p].l[2]) })
			for _, q := range phis {
				q := q
				if _, ok := q.Type().Underlying().(*types.Basic); ok && leavesOf(q.Type())[0].sort == "Int" {
					d := b.Sub(e.l[2], entryEnv[q].l[0])
					add("len("+p.Name()+")-"+q.Name(), func(st *State, env map[ssa.Value]Val) *Term {
						return b.Eq(b.Sub(env[p].l[2], env[q].l[0]), d)
					})
					add("len("+p.Name()+")<="+q.Name()+"+d", func(st *State, env map[ssa.Value]Val) *Term {
						return b.Le(b.Sub(env[p].l[2], env[q].l[0]), d)
					})
				}
			}
		case *types.Pointer, *types.Map, *types.Signature:
			if x.funcs[e.l[0]] == nil && x.locs[e.l[0]] == nil {
				add(p.Name()+"!=nil", func(st *State, env map[ssa.Value]Val) *Term { return b.Not(b.Eq(env[p].l[0], b.Int(0))) })
				add(p.Name()+" same", func(st *State, env map[ssa.Value]Val) *Term { return b.Eq(env[p].l[0], e.l[0]) })
			}
		case *types.Interface:
			if isIfaceT(p.Type()) {
				add(p.Name()+"!=nil", func(st *State, env map[ssa.Value]Val) *Term { return b.Not(b.Eq(env[p].l[0], b.Int(0))) })
				add(p.Name()+" tag same", func(st *State, env map[ssa.Value]Val) *Term { return b.Eq(env[p].l[0], e.l[0]) })
			}
		}
	}
	// frames of the modified heap components
	for _, k := range sortedSet(mod) {
		k := k
		ki := x.keyInfo[k]
		h0 := x.H(entry, k, ki.sort, ki.lf)
		add("unchanged "+k, func(st *State, env map[ssa.Value]Val) *Term {
			return b.Eq(x.H(st, k, ki.sort, ki.lf), h0)
		})
		if strings.HasPrefix(k, "G:") || strings.HasPrefix(k, "L:") {
			continue
		}
		r := b.BV("r", 80, "Int")
		frameC := func(name string, hw, h *Term, excl []*Term) {
			add(name, func(st *State, env map[ssa.Value]Val) *Term {
				cur := x.H(st, k, ki.sort, ki.lf)
				g := []*Term{b.Le(r, hw)}
				if strings.HasPrefix(k, "E:") {
					g = append(g, b.Lt(b.Int(0), r)) // a nil slice has no elements
				}
				for _, e := range excl {
					g = append(g, b.Not(b.Eq(r, e)))
				}
				return b.Forall([]*Term{r}, b.Implies(b.And(g...), b.Eq(b.Select(cur, r), b.Select(h, r))), b.Select(cur, r))
			})
		}
		frameC("frame "+k, entry.hw, h0, nil)
		hr := x.H(x.pre, k, ki.sort, ki.lf)
		if hr != h0 || x.pre.hw != entry.hw {
			frameC("rootframe "+k, x.pre.hw, hr, nil)
		}
		memo := map[*Term]bool{}
		var excl []*Term
		for w := range writes[k] {
			if x.loopInvariantTerm(w, marker, memo) {
				excl = append(excl, w)
			}
		}
		sort.Slice(excl, func(i, j int) bool { return excl[i].id < excl[j].id })
		if len(excl) > 0 && len(excl) < 6 {
			frameC("frame-excl "+k, entry.hw, h0, excl)
		}
		// slices whose region is being filled
		if strings.HasPrefix(k, "E:") {
			for _, p := range phis {
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					if e := entryEnv[p].l[0]; e.op != "int" {
						frameC("frame-but-"+p.Name()+" "+k, entry.hw, h0, []*Term{e})
					}
				}
			}
		}
	}
	// predicates supplied with the contract
	all := findLoops(li.head.Parent())
	for ci, c := range x.rootC {
		if c.kind != "loopinv" {
			continue
		}
		c := c
		combos := [][]func(st *State, env map[ssa.Value]Val) (Val, bool){{}}
		names := []string{""}
		skip := false
		for _, vp := range c.vars {
			t := x.parseType(vp.typ, x.rootEnv.pkg)
			var opts []func(st *State, env map[ssa.Value]Val) (Val, bool)
			var on []string
			for _, p := range phis {
				p := p
				if typeKey(p.Type()) == typeKey(t) || sameUnderSlice(p.Type(), t) {
					opts = append(opts, func(st *State, env map[ssa.Value]Val) (Val, bool) { return env[p], true })
					on = append(on, p.Name())
					if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
						// counters may run from -1 (range loops) or from 0
						opts = append(opts, func(st *State, env map[ssa.Value]Val) (Val, bool) {
							return x.intVal(b.AddK(env[p].l[0], 1)), true
						})
						on = append(on, p.Name()+"+1")
						if e := entryEnv[p].l[0]; e.op == "int" && e.name == "1" {
							// … or from 1
							opts = append(opts, func(st *State, env map[ssa.Value]Val) (Val, bool) {
								return x.intVal(b.AddK(env[p].l[0], -1)), true
							})
							on = append(on, p.Name()+"-1")
						}
					}
				}
			}
			for _, v := range vals {
				v := v
				if p, ok := v.(*ssa.Phi); ok && !isPhi[v] {
					// a variable of an earlier loop: what holds of it is already known
					if o := all[p.Block()]; o != nil && !o.body[li.head] {
						continue
					}
				}
				switch t.Underlying().(type) {
				case *types.Pointer:
					if _, isAlloc := v.(*ssa.Alloc); isAlloc && typeKey(v.Type()) == typeKey(t) {
						opts = append(opts, func(st *State, env map[ssa.Value]Val) (Val, bool) { return entryEnv[v], true })
						on = append(on, v.Name())
					}
				case *types.Slice, *types.Map:
					if _, isConst := v.(*ssa.Const); !isPhi[v] && !isConst && (typeKey(v.Type()) == typeKey(t) || sameUnderSlice(v.Type(), t)) {
						opts = append(opts, func(st *State, env map[ssa.Value]Val) (Val, bool) { return entryEnv[v], true })
						on = append(on, v.Name())
					}
				}
				if pt := deref(v.Type()); pt != nil && typeKey(pt) == typeKey(t) {
					_, isAlloc := v.(*ssa.Alloc)
					_, isFV := v.(*ssa.FreeVar)
					if isAlloc || isFV || isIterator(t) {
						opts = append(opts, func(st *State, env map[ssa.Value]Val) (Val, bool) {
							pv := entryEnv[v]
							return x.load(st, pv.l[0], t), true
						})
						on = append(on, "*"+v.Name())
					}
				}
			}
			if len(opts) == 0 {
				skip = true
				break
			}
			var nc [][]func(st *State, env map[ssa.Value]Val) (Val, bool)
			var nn []string
			for i, cb := range combos {
				for j, o := range opts {
					nc = append(nc, append(append([]func(st *State, env map[ssa.Value]Val) (Val, bool){}, cb...), o))
					nn = append(nn, names[i]+","+on[j])
				}
			}
			combos, names = nc, nn
		}
		if skip {
			continue
		}
		for i, cb := range combos {
			cb := cb
			f := func(st *State, env map[ssa.Value]Val) *Term {
				se := &SEnv{vars: map[string]Val{}, st: st, old: x.pre, pkg: x.rootEnv.pkg, hwOld: x.pre.hw}
				for k, v := range x.rootEnv.vars {
					se.vars[k] = v
				}
				for j, vp := range c.vars {
					v, _ := cb[j](st, env)
					v.t = x.parseType(vp.typ, x.rootEnv.pkg)
					se.vars[vp.name] = v
				}
				return x.evBool(c.expr, se)
			}
			out = append(out, &cand{name: fmt.Sprintf("spec%d(%s) %s", ci, strings.TrimPrefix(names[i], ","), c.text), eval: f, spec: !c.auto, auto: c.auto})
		}
	}
	return out
}

func sameUnderSlice(a, b types.Type) bool {
	sa, ok1 := a.Underlying().(*types.Slice)
	sb, ok2 := b.Underlying().(*types.Slice)
	return ok1 && ok2 && typeKey(sa.Elem()) == typeKey(sb.Elem())
}

func sortedHeap(m map[string]*Term) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
