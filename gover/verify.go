package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	spec     *Spec
	prog     *ssa.Program
	pkgs     map[string]*types.Package
	spkgs    map[string]*ssa.Package
	fset     *token.FileSet
	anyT     types.Type
	stats    *Stats
	funcs    map[string]*ssa.Function
	mu       sync.Mutex
	tags     map[string]int
	tagT     []types.Type
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	stored   map[*ssa.Global]bool
	sol      *Solver
	repo     string
	implOnce sync.Once
	impls    map[string]*Contract
}

type Stats struct {
	mu      sync.Mutex
	inv     int
	checks  int
	solverS float64
	by      map[string]int
}

func (s *Stats) addInv(n int) { s.mu.Lock(); s.inv += n; s.mu.Unlock() }

const modelPkg = repoPath + "/internal/zzgovermodels"

func loadRepo(repo, modelSrc string, env []string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Env: env}
	pats := []string{".", "./vmux", "./internal/cuetil", "./internal/compat", "./internal/util", "./load", "./errors"}
	if modelSrc != "" {
		cfg.Overlay = map[string][]byte{repo + "/internal/zzgovermodels/models.go": []byte(modelSrc)}
		pats = append(pats, "./internal/zzgovermodels")
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sps := ssautil.Packages(ps, ssa.BuilderMode(0))
	prog.Build()
	v := &Verifier{prog: prog, pkgs: map[string]*types.Package{}, spkgs: map[string]*ssa.Package{}, fset: prog.Fset, stats: &Stats{by: map[string]int{}}, funcs: map[string]*ssa.Function{}, tags: map[string]int{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, stored: map[*ssa.Global]bool{}, repo: repo}
	v.tagT = []types.Type{nil}
	var addP func(p *types.Package)
	addP = func(p *types.Package) {
		if v.pkgs[p.Path()] != nil {
			return
		}
		v.pkgs[p.Path()] = p
		for _, q := range p.Imports() {
			addP(q)
		}
	}
	for i, p := range ps {
		if sps[i] == nil {
			return nil, fmt.Errorf("no ssa for %s", p.PkgPath)
		}
		v.spkgs[p.PkgPath] = sps[i]
		addP(p.Types)
	}
	for fn := range ssautil.AllFunctions(prog) {
		p := fnPkg(fn)
		if p == nil || v.spkgs[p.Path()] == nil {
			continue
		}
		if fn.Origin() == nil {
			if k := fnKey(fn); k != "" && len(fn.Blocks) > 0 {
				v.funcs[k] = fn
			}
		}
		v.scanStores(fn)
	}
	// methods of generic types and functions not otherwise reached
	for _, sp := range sps {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				v.funcs[fnKey(m)] = m
				v.scanStores(m)
			case *ssa.Type:
				if n, ok := types.Unalias(m.Type()).(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil && len(f.Blocks) > 0 {
							v.funcs[fnKey(f)] = f
							v.scanStores(f)
						}
					}
				}
			}
		}
	}
	if tp := v.pkgs[repoPath]; tp != nil {
		if o, ok := tp.Scope().Lookup("TypedInstance").(*types.TypeName); ok {
			v.anyT = o.Type().(*types.Named).TypeParams().At(0)
		}
	}
	return v, nil
}

func (v *Verifier) scanStores(fn *ssa.Function) {
	if fn.Synthetic == "package initializer" {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				root := s.Addr
				for {
					switch a := root.(type) {
					case *ssa.FieldAddr:
						root = a.X
						continue
					case *ssa.IndexAddr:
						root = a.X
						continue
					}
					break
				}
				if g, ok := root.(*ssa.Global); ok {
					v.stored[g] = true
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		v.scanStores(a)
	}
}

func (v *Verifier) protectedKey(string) bool { return true }

func (v *Verifier) modelFn(n string) *ssa.Function {
	p := v.spkgs[modelPkg]
	if p == nil {
		return nil
	}
	return p.Func(n)
}

func (v *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	v.mu.Lock()
	defer v.mu.Unlock()
	if m, ok := v.loops[fn]; ok {
		return m
	}
	m := findLoops(fn)
	v.loops[fn] = m
	return m
}

func (v *Verifier) tagOf(t types.Type) int {
	v.mu.Lock()
	defer v.mu.Unlock()
	k := typeKey(t)
	if n, ok := v.tags[k]; ok {
		return n
	}
	n := len(v.tagT)
	v.tags[k] = n
	v.tagT = append(v.tagT, originPtr(t))
	return n
}
func (v *Verifier) typeOfTag(n int) types.Type {
	v.mu.Lock()
	defer v.mu.Unlock()
	if n > 0 && n < len(v.tagT) {
		return v.tagT[n]
	}
	return nil
}
func (v *Verifier) ntags() int { v.mu.Lock(); defer v.mu.Unlock(); return len(v.tagT) }

func (v *Verifier) svType() types.Type {
	return v.pkgs[repoPath].Scope().Lookup("SyntacticVersion").Type()
}

func (v *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := v.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, v.repo), "/"), q.Line)
}

func (v *Verifier) method(t types.Type, m *types.Func) *ssa.Function {
	v.mu.Lock()
	defer v.mu.Unlock()
	ms := v.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return v.prog.MethodValue(sel)
}

func (v *Verifier) globalOf(o *types.Var) *ssa.Global {
	sp := v.spkgs[o.Pkg().Path()]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[o.Name()].(*ssa.Global)
	return g
}

// --- globals

func (x *Exec) globalVal(st *State, g *ssa.Global) Val {
	if p := x.globals[g]; p != nil {
		return *p
	}
	et := deref(g.Type())
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if !isRepoPkg(g.Pkg.Pkg) || x.v.spkgs[path] == nil {
		v := x.extGlobal(path+"."+g.Name(), et)
		return v
	}
	if x.v.stored[g] {
		x.unsup("global %s is assigned outside initialisation", g.Name())
	}
	v, ok := x.initVal(g)
	if !ok {
		v = x.extGlobal(path+"."+g.Name(), et)
	}
	x.globals[g] = &v
	return v
}

func (x *Exec) extGlobal(name string, t types.Type) Val {
	v := Val{t: t}
	for i, lf := range leavesOf(t) {
		c := x.b.Const(fmt.Sprintf("global:%s#%d", name, i), lf.sort)
		v.l = append(v.l, c)
		switch lf.kind {
		case "tag":
			if types.Identical(t, errT) {
				x.axioms[c] = []*Term{x.b.Lt(x.b.Int(0), c)}
			}
		case "ref":
			x.axioms[c] = []*Term{x.b.Lt(x.b.Int(0), c), x.b.Le(c, x.b.Const("hw0", "Int"))}
		case "uint":
			x.axioms[c] = []*Term{x.b.Le(x.b.Int(0), c)}
		}
	}
	return v
}

// initVal evaluates a global's initialiser where it is built from constants
// and pure external functions.
func (x *Exec) initVal(g *ssa.Global) (v Val, ok bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	var val ssa.Value
	n := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, is := in.(*ssa.Store); is && s.Addr == ssa.Value(g) {
				val = s.Val
				n++
			}
		}
	}
	if n != 1 {
		return
	}
	return x.initExpr(val, 0)
}

func (x *Exec) initExpr(e ssa.Value, depth int) (Val, bool) {
	if depth > 10 {
		return Val{}, false
	}
	switch e := e.(type) {
	case *ssa.Const:
		return x.ssaConst(e), true
	case *ssa.ChangeType:
		v, ok := x.initExpr(e.X, depth+1)
		v.t = e.Type()
		return v, ok
	case *ssa.Call:
		sc := e.Call.StaticCallee()
		if sc == nil {
			return Val{}, false
		}
		key := fnKey(sc)
		ex := x.v.spec.externs[key]
		if ex == nil || !ex.pure {
			return Val{}, false
		}
		sig := sc.Signature
		var fixed, vari []Val
		for i, a := range e.Call.Args {
			if sig.Variadic() && i == len(e.Call.Args)-1 {
				el, ok := x.initSlice(a, depth+1)
				if !ok {
					return Val{}, false
				}
				vari = el
				continue
			}
			v, ok := x.initExpr(a, depth+1)
			if !ok {
				return Val{}, false
			}
			fixed = append(fixed, v)
		}
		return x.pureApp(key, sig, fixed, vari, sig.Variadic()), true
	}
	return Val{}, false
}

func (x *Exec) initSlice(e ssa.Value, depth int) ([]Val, bool) {
	if c, ok := e.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := e.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]Val, at.Len())
	got := 0
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok {
				v, ok := x.initExpr(s.Val, depth+1)
				if !ok {
					return nil, false
				}
				i, _ := constant.Int64Val(c.Value)
				out[i] = v
				got++
			}
		}
	}
	return out, got == len(out)
}

// --- verification of one function

type FuncResult struct {
	name    string
	obls    []Oblig
	x       *Exec
	err     string // not decided: unsupported construct or spec error
	specErr bool
	covers  []cover
	used    []string
	inlined []string
	paths   int
	trivial int
	loopLog []string
}

func (v *Verifier) clausesIn(cs []*Clause, view string) []*Clause {
	var out []*Clause
	for _, c := range cs {
		if c.in(view) {
			out = append(out, c)
		}
	}
	return out
}

// verify checks fn against the contract in a view. this is the receiver type
// for interface contracts.
func (v *Verifier) verify(c *Contract, fn *ssa.Function, name, view string, boxed, safe bool) (res *FuncResult) {
	x := v.newExec(view)
	res = &FuncResult{name: name, x: x}
	x.rootName = name
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.err = e.msg
			case specError:
				res.err = "specification: " + e.msg
				res.specErr = true
			default:
				if debugPanics {
					panic(r)
				}
				res.err = fmt.Sprint("internal: ", r)
			}
		}
		res.obls = x.obls
		res.covers = x.covers
		res.paths = x.paths
		res.trivial = x.trivial
		res.loopLog = x.loopLog
		for k := range x.used {
			res.used = append(res.used, k)
		}
		for k := range x.inlined {
			res.inlined = append(res.inlined, k)
		}
		sort.Strings(res.used)
		sort.Strings(res.inlined)
	}()
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	x.root = fn
	x.rootC = v.clausesIn(c.clauses, view)
	x.rootC = append(x.rootC, deriveInvs(x.rootC, c.results)...)
	if safe {
		x.rootC = append(x.rootC, &Clause{kind: "safe"})
	}
	x.rootSafe = x.hasClause("safe")
	b := x.b
	st := &State{facts: map[*Term]bool{}, heap: map[string]*Term{}, hw: b.Const("hw0", "Int")}
	x.fact(st, b.Le(b.Int(0), st.hw))
	var args, envArgs []Val
	for i, p := range fn.Params {
		pv := x.freshVal(st, p.Name(), p.Type())
		args = append(args, pv)
		if i == 0 && boxed {
			x.fact(st, b.Lt(b.Int(0), pv.l[0]))
			envArgs = append(envArgs, Val{t: errT, l: x.box(st, pv)})
			if it := v.ifaceType(c); it != nil {
				envArgs[0].t = it
			}
		} else {
			envArgs = append(envArgs, pv)
		}
	}
	if c.recv != "" && !boxed {
		if _, isP := fn.Params[0].Type().Underlying().(*types.Pointer); isP {
			// methods on nil pointers are not considered
			x.fact(st, b.Lt(b.Int(0), args[0].l[0]))
		}
	}
	env := x.bindEnv(c, envArgs, st)
	x.rootEnv = env
	for _, cl := range x.rootC {
		if cl.kind == "requires" || cl.kind == "assumes" && false {
			x.fact(st, x.evBool(cl.expr, env))
		}
	}
	x.pre = st.clone()
	env.old = x.pre
	env.st = x.pre
	x.covers = append(x.covers, cover{name: "precondition", pc: st.pc})
	outs := x.callFunc(st, fn, args, nil)
	x.checkOutcomes(outs, c.clauses, c.results, env, x.pre, name)
	if c.closure != nil && len(v.clausesIn(c.closure.clauses, view)) > 0 {
		x.checkClosures(outs, c.closure, c.results, env, name)
	}
	return
}

func (v *Verifier) ifaceType(c *Contract) types.Type {
	// key "(pkg.I).M"
	k := strings.TrimPrefix(c.key, "(")
	k = k[:strings.IndexByte(k, ')')]
	i := strings.LastIndexByte(k, '.')
	p := v.pkgs[k[:i]]
	if p == nil {
		return nil
	}
	if o, ok := p.Scope().Lookup(k[i+1:]).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (x *Exec) checkOutcomes(outs []Outcome, clauses []*Clause, results []string, env *SEnv, pre *State, name string) {
	b := x.b
	nn := 0
	for _, o := range outs {
		e := *env
		e.vars = map[string]Val{}
		for k, w := range env.vars {
			e.vars[k] = w
		}
		e.st = o.st
		e.old = pre
		e.hwOld = pre.hw
		preEnv := e
		preEnv.st = pre
		if o.panicked {
			allowed := []*Term{}
			safe := x.rootSafe
			for _, c := range clauses {
				if !c.in(x.view) {
					continue
				}
				switch c.kind {
				case "safe":
					safe = true
				case "panics", "maypanicif":
					allowed = append(allowed, x.evBool(c.expr, &preEnv))
				case "ensurespanic":
					x.oblig(o.st, "when panicking, "+c.label+": "+c.text, x.evBool(c.expr, &e), "")
				}
			}
			if x.view != "P17" && (safe || len(allowed) > 0) { // P17 adds panics of its own
				x.oblig(o.st, "panics only when allowed", b.Or(allowed...), "")
			}
			x.frameObls(o.st, pre, clauses, &preEnv, " when panicking")
			continue
		}
		nn++
		if nn <= 40 {
			x.covers = append(x.covers, cover{name: fmt.Sprintf("return path %d", nn), pc: o.st.pc})
		}
		for i, r := range results {
			if i < len(o.res) {
				e.vars[r] = o.res[i]
			}
		}
		st := o.st
		for _, c := range clauses {
			if !c.in(x.view) {
				continue
			}
			switch c.kind {
			case "ensures":
				g := x.evBool(c.expr, &e)
				x.obligConj(st, "ensures "+c.label+": "+c.text, g)
			case "lemma":
				g := x.evBool(c.expr, &e)
				x.obligConj(st, "lemma "+c.label+": "+c.text, g)
				x.fact(st, g)
			case "panics":
				x.oblig(st, "panics when "+c.text, b.Not(x.evBool(c.expr, &preEnv)), "")
			}
		}
		x.frameObls(st, pre, clauses, &preEnv, "")
	}
}

func (x *Exec) obligConj(st *State, name string, g *Term) {
	if x.decided(st, g) == x.b.True {
		x.trivial++
		return
	}
	if g.op == "and" {
		for _, a := range g.args {
			if x.decided(st, a) != x.b.True {
				x.oblig(st, name, a, "")
			} else {
				x.trivial++
			}
		}
		return
	}
	x.oblig(st, name, g, "")
}

// frameObls: memory that existed before is unchanged except where declared.
func (x *Exec) frameObls(st, pre *State, clauses []*Clause, preEnv *SEnv, when string) {
	b := x.b
	excl := map[string][]*Term{}
	recs := map[string]bool{}
	for _, c := range clauses {
		if c.kind == "modifies" && c.in(x.view) {
			for _, it := range c.list {
				if strings.HasPrefix(it, "rec:") {
					recs[it[4:]] = true
					continue
				}
				if it == "lock" {
					recs["lock"] = true
					continue
				}
				for _, a := range x.itemAddrs(pre, it, preEnv) {
					excl[a.key] = append(excl[a.key], a.ref)
				}
			}
		}
	}
	for _, k := range sortedKeys(st.heap) {
		ki := x.keyInfo[k]
		h0 := x.H(pre, k, ki.sort, ki.lf)
		h1 := st.heap[k]
		if h0 == h1 {
			continue
		}
		if strings.HasPrefix(k, "G:") {
			n := k[2:strings.IndexByte(k, '.')]
			if !recs[n] {
				x.oblig(st, "frame"+when+": record "+n+" untouched", b.Eq(h0, h1), "")
			}
			continue
		}
		if strings.HasPrefix(k, "L:") {
			if recs["lock"] {
				continue
			}
			r := b.BV("r", 80, "Int")
			x.oblig(st, "the lock is left as it was found"+when, b.Forall([]*Term{r}, b.Eq(b.Select(h1, r), b.Select(h0, r)), b.Select(h1, r)), "")
			continue
		}
		// syntactic: only stores to objects allocated since
		h := h1
		triv := true
		for h != h0 {
			if h.op != "store" {
				triv = false
				break
			}
			d, ok := b.diff(h.args[1], pre.hw)
			if !(ok && d.Sign() > 0) {
				in := false
				for _, e := range excl[k] {
					if e == h.args[1] {
						in = true
					}
				}
				if !in {
					triv = false
					break
				}
			}
			h = h.args[0]
		}
		if triv {
			x.trivial++
			continue
		}
		r := b.BV("r", 80, "Int")
		g := []*Term{b.Le(r, pre.hw)}
		if strings.HasPrefix(k, "E:") {
			g = append(g, b.Lt(b.Int(0), r)) // a nil slice has no elements
		}
		for _, e := range excl[k] {
			g = append(g, b.Not(b.Eq(r, e)))
		}
		x.oblig(st, "frame"+when+": "+k+" of existing objects is unchanged", b.Forall([]*Term{r}, b.Implies(b.And(g...), b.Eq(b.Select(h1, r), b.Select(h0, r))), b.Select(h1, r)), "")
	}
}

// checkClosures verifies the function values a constructor returned, in a
// later state: call records and locks arbitrary, all else as left.
func (x *Exec) checkClosures(outs []Outcome, clo *Closure, results []string, env *SEnv, name string) {
	b := x.b
	rootC, rootEnv, pre0 := x.rootC, x.rootEnv, x.pre
	defer func() { x.rootC, x.rootEnv, x.pre = rootC, rootEnv, pre0 }()
	for _, o := range outs {
		if o.panicked || len(o.res) == 0 {
			continue
		}
		fv := o.res[0]
		if clo.at != nil {
			e := *env
			e.vars = map[string]Val{}
			for k, w := range env.vars {
				e.vars[k] = w
			}
			for i, r := range results {
				if i < len(o.res) {
					e.vars[r] = o.res[i]
				}
			}
			e.st = o.st
			if x.decided(o.st, x.evBool(clo.when, &e)) == b.False {
				continue
			}
			fv = x.ev(clo.at, &e)
		}
		f := x.funcs[fv.l[0]]
		if f == nil || f.fn == nil {
			if f != nil && f.clo == clo {
				continue
			}
			x.unsup("returned function value %s is not a known closure", fv.l[0])
		}
		st := o.st.clone()
		for _, k := range sortedKeys(st.heap) {
			if strings.HasPrefix(k, "G:") || strings.HasPrefix(k, "L:") {
				ki := x.keyInfo[k]
				st.heap[k] = b.Fresh(k, ki.sort)
			}
		}
		nhw := b.Fresh("hw", "Int")
		x.fact(st, b.Le(st.hw, nhw))
		st.hw = nhw
		ne := &SEnv{vars: map[string]Val{}, pkg: clo.pkg}
		for k, v := range env.vars {
			ne.vars[k] = v
		}
		var args []Val
		for i, p := range f.fn.Params {
			pv := x.freshVal(st, p.Name(), p.Type())
			args = append(args, pv)
			if i < len(clo.params) {
				ne.vars[clo.params[i]] = pv
			}
		}
		ne.st, ne.hwOld = st, st.hw
		ne.old = st
		x.rootC = x.v.clausesIn(clo.clauses, x.view)
		if x.rootSafe {
			x.rootC = append(x.rootC, &Clause{kind: "safe"})
		}
		for _, cl := range x.rootC {
			if cl.kind == "requires" {
				x.fact(st, x.evBool(cl.expr, ne))
			}
		}
		pre := st.clone()
		ne.st, ne.old, ne.hwOld = pre, pre, pre.hw
		x.rootEnv, x.pre = ne, pre
		save := x.rootName
		x.rootName = name + " returned func"
		couts := x.callStaticBody(st, f, args)
		x.checkOutcomes(couts, clo.clauses, clo.results, ne, pre, name)
		x.rootName = save
		x.rootC, x.rootEnv, x.pre = rootC, rootEnv, pre0
	}
}

func (x *Exec) callStaticBody(st *State, f *FuncV, args []Val) []Outcome {
	return x.callFunc(st, f.fn, args, f.bind)
}

// --- expressions

var exprMu sync.Mutex
var exprCache = map[string]ast.Expr{}

func parseExprCached(s string) (ast.Expr, error) {
	exprMu.Lock()
	defer exprMu.Unlock()
	if e, ok := exprCache[s]; ok {
		return e, nil
	}
	// "map(e)" in modifies lists is not a Go expression
	src := s
	if strings.HasPrefix(s, "map(") {
		src = "mapof" + s[3:]
	}
	e, err := parser.ParseExpr(src)
	if err != nil {
		return nil, err
	}
	exprCache[s] = e
	return e, nil
}

func callOf(e ast.Expr) (string, ast.Expr, bool) {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return "", nil, false
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		return "", nil, false
	}
	n := id.Name
	if n == "mapof" {
		n = "map"
	}
	return n, c.Args[0], true
}
func selOf(e ast.Expr) (ast.Expr, string, bool) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return nil, "", false
	}
	return s.X, s.Sel.Name, true
}
func asExpr(a any) ast.Expr {
	e, _ := a.(ast.Expr)
	return e
}

var debugPanics bool
