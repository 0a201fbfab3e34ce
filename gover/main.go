// gover: a deductive verifier for Go, driven by contracts kept in .spec files.
package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed models/models.go.txt
var modelSrc string

type FailOut struct {
	Function   string `json:"function"`
	Obligation string `json:"obligation"`
	Where      string `json:"where,omitempty"`
	Output     string `json:"output,omitempty"`
	Kind       string `json:"kind"` // failed, undecided, unsupported, specification
}

type FuncOut struct {
	Function    string   `json:"function"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Trivial     int      `json:"closed_by_simplifier"`
	Paths       int      `json:"paths"`
	Inlined     []string `json:"inlined,omitempty"`
	Loops       []string `json:"loops,omitempty"`
	Ms          int64    `json:"ms"`
}

type Result struct {
	View        string         `json:"view"`
	Functions   []FuncOut      `json:"functions"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Trivial     int            `json:"closed_by_simplifier"`
	InvChecks   int            `json:"invariant_candidates_checked"`
	By          map[string]int `json:"by_backend"`
	SolverS     float64        `json:"solver_s"`
	SolverRuns  int            `json:"solver_runs"`
	WallS       float64        `json:"wall_s"`
	Fails       []FailOut      `json:"fails"`
	Trusted     []string       `json:"trusted"`
	Missing     []string       `json:"missing_helpers,omitempty"`
	Vacuous     []string       `json:"vacuous,omitempty"`
	LoadError   string         `json:"load_error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contracts")
	view := flag.String("view", "", "property")
	only := flag.String("only", "", "verify only functions matching")
	out := flag.String("out", "", "result file")
	budget := flag.Int("budget", 0, "seconds for the whole run; 0: no limit")
	tlim := flag.Int("tlim", 20, "seconds per obligation and solver")
	verbose := flag.Bool("v", false, "verbose")
	keep := flag.Bool("keep", false, "keep solver scripts")
	dump := flag.String("dump", "", "print the SSA of a function")
	list := flag.Bool("list", false, "list functions")
	flag.BoolVar(&debugLoops, "loops", false, "print loop invariants")
	flag.BoolVar(&debugPanics, "panic", false, "do not catch internal errors")
	jobs := flag.Int("j", 4, "functions in parallel")
	flag.Parse()
	t0 := time.Now()
	res := &Result{View: *view, Fails: []FailOut{}}
	finish := func() {
		res.WallS = time.Since(t0).Seconds()
		if *out != "" {
			d, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(*out, d, 0o644)
		}
		if res.LoadError != "" {
			fmt.Println("ERROR", res.LoadError)
			os.Exit(2)
		}
		if len(res.Fails) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	env := append(os.Environ(), "PATH=/opt/veriftools/go1.23.12/bin:/usr/bin:/bin", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
	v, err := loadRepo(*repo, modelSrc, env)
	if err != nil {
		res.LoadError = err.Error()
		finish()
	}
	if *dump != "" || *list {
		var ks []string
		for k := range v.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if *list {
				fmt.Println(k)
			} else if strings.HasSuffix(k, "."+*dump) {
				v.funcs[k].WriteTo(os.Stdout)
				for _, a := range v.funcs[k].AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	v.spec, err = parseSpecs(*specs)
	if err != nil {
		res.LoadError = err.Error()
		finish()
	}
	v.sol = newSolver(v, *tlim, *budget)
	v.sol.keep = *keep
	if *keep {
		fmt.Println("scripts in", v.sol.dir)
	} else {
		defer v.sol.close()
	}
	if err := v.resolveRecords(); err != nil {
		res.LoadError = err.Error()
		finish()
	}
	var onlyRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
	}
	v.runView(*view, onlyRe, res, *jobs, *verbose)
	if !*keep {
		v.sol.close()
	}
	finish()
}

// --- records

func (v *Verifier) sigOf(key string) *types.Signature {
	if f := v.funcs[key]; f != nil {
		return f.Signature
	}
	return nil
}

func (v *Verifier) resolveRecords() error {
	put := func(name string, recv types.Type, sig *types.Signature, an, rn []string, recvName string) {
		ri := &recInfo{}
		if recv != nil {
			ri.args = append(ri.args, recv)
			ri.an = append(ri.an, recvName)
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ri.args = append(ri.args, sig.Params().At(i).Type())
		}
		ri.an = append(ri.an, an...)
		for i := 0; i < sig.Results().Len(); i++ {
			ri.rets = append(ri.rets, sig.Results().At(i).Type())
		}
		ri.rn = rn
		v.spec.records[name] = ri
	}
	for _, c := range v.spec.order {
		if c.record == "" && (c.closure == nil || c.closure.record == "") {
			continue
		}
		var sig *types.Signature
		var recv types.Type
		if c.iface {
			it := v.ifaceType(c)
			if it == nil {
				continue
			}
			m, _, _ := types.LookupFieldOrMethod(it, true, v.pkgs[c.pkg], c.key[strings.LastIndexByte(c.key, '.')+1:])
			f, ok := m.(*types.Func)
			if !ok {
				continue
			}
			sig = f.Type().(*types.Signature)
			recv = it
		} else {
			fn := v.funcs[c.key]
			if fn == nil {
				continue
			}
			sig = fn.Signature
			if sig.Recv() != nil {
				recv = sig.Recv().Type()
			}
		}
		if c.record != "" {
			put(c.record, recv, sig, c.params, c.results, c.recv)
		}
		if c.closure != nil && c.closure.record != "" {
			rs, ok := sig.Results().At(0).Type().Underlying().(*types.Signature)
			if !ok {
				return fmt.Errorf("%s does not return a function", c.key)
			}
			put(c.closure.record, nil, rs, c.closure.params, c.closure.results, "")
		}
	}
	for k, c := range v.spec.funcflds {
		if c.record == "" {
			continue
		}
		p := v.pkgs[c.pkg]
		if p == nil {
			return fmt.Errorf("funcfield %s: package not loaded", k)
		}
		tn, fn, isField := strings.Cut(c.name, ".")
		o, ok := p.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return fmt.Errorf("funcfield %s: no such type", k)
		}
		var sig *types.Signature
		if isField {
			st, ok := o.Type().Underlying().(*types.Struct)
			if !ok {
				return fmt.Errorf("funcfield %s: not a struct", k)
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fn {
					sig, _ = st.Field(i).Type().Underlying().(*types.Signature)
				}
			}
		} else {
			sig, _ = o.Type().Underlying().(*types.Signature)
		}
		if sig == nil {
			return fmt.Errorf("funcfield %s: no signature", k)
		}
		put(c.record, nil, sig, c.params, c.results, "")
		ri := v.spec.records[c.record] // and the function called
		ri.an, ri.args = append(ri.an, "self"), append(ri.args, types.Type(sig))
	}
	return nil
}

// --- views

type task struct {
	c     *Contract
	fn    *ssa.Function
	name  string
	boxed bool
}

func (v *Verifier) tasksFor(c *Contract, res *Result) []task {
	if c.trusted != "" {
		res.Trusted = append(res.Trusted, "contract of "+shortKey(c.key)+": "+c.trusted)
		return nil
	}
	if !c.iface {
		fn := v.funcs[c.key]
		if fn == nil {
			if c.opt {
				res.Missing = append(res.Missing, c.key)
			} else {
				res.Fails = append(res.Fails, FailOut{Function: shortKey(c.key), Obligation: "the function exists", Kind: "failed", Output: "no such function in the current source"})
			}
			return nil
		}
		if c.opt && (len(fn.Params) != len(c.params)+b2i(c.recv != "") || fn.Signature.Results().Len() != len(c.results)) {
			res.Missing = append(res.Missing, c.key+" (different signature)")
			delete(v.spec.contracts, c.key)
			return nil
		}
		return []task{{c, fn, shortKey(c.key), false}}
	}
	it := v.ifaceType(c)
	m := c.key[strings.LastIndexByte(c.key, '.')+1:]
	if it == nil {
		res.Fails = append(res.Fails, FailOut{Function: shortKey(c.key), Obligation: "the interface exists", Kind: "failed"})
		return nil
	}
	var out []task
	for _, im := range c.impls {
		ptr := strings.HasPrefix(im, "*")
		tn := strings.TrimPrefix(im, "*")
		pkg := c.pkg
		o, ok := v.pkgs[pkg].Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			res.Missing = append(res.Missing, "implementer "+im)
			continue
		}
		t := o.Type()
		if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
			var as []types.Type
			for i := 0; i < n.TypeParams().Len(); i++ {
				as = append(as, types.Typ[types.Int])
			}
			// declared methods are verified on the generic type
			if f := v.funcs["(*"+pkg+"."+tn+")."+m]; f != nil {
				out = append(out, task{c, f, fmt.Sprintf("%s as %s", shortKey(fnKey(f)), shortKey(c.key)), true})
				continue
			}
			it, err := types.Instantiate(types.NewContext(), n, as, false)
			if err != nil {
				continue
			}
			t = it
		}
		if ptr {
			t = types.NewPointer(t)
		}
		ms := v.prog.MethodSets.MethodSet(t)
		sel := ms.Lookup(v.pkgs[pkg], m)
		if sel == nil {
			res.Fails = append(res.Fails, FailOut{Function: shortKey(c.key), Obligation: im + " implements it", Kind: "failed"})
			continue
		}
		f := v.prog.MethodValue(sel)
		if f == nil {
			res.Fails = append(res.Fails, FailOut{Function: shortKey(c.key), Obligation: im + " implements it", Kind: "undecided"})
			continue
		}
		out = append(out, task{c, f, fmt.Sprintf("(%s).%s as %s", im, m, shortKey(c.key)), true})
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func shortKey(k string) string {
	return strings.ReplaceAll(strings.ReplaceAll(k, repoPath+".", ""), repoPath+"/", "")
}

func (c *Contract) taggedIn(view string) bool {
	for _, cl := range c.clauses {
		if cl.tagged(view) {
			return true
		}
	}
	if c.closure != nil {
		for _, cl := range c.closure.clauses {
			if cl.tagged(view) {
				return true
			}
		}
	}
	return false
}

func (v *Verifier) runView(view string, only *regexp.Regexp, res *Result, jobs int, verbose bool) {
	seen := map[string]bool{}
	safeReq := map[string]bool{}
	var queue []*Contract
	add := func(c *Contract, safe bool) {
		if c == nil {
			return
		}
		for _, cl := range c.clauses {
			if cl.in(view) && cl.kind == "safe" {
				safe = true
			}
			if cl.in(view) && cl.kind == "maypanic" {
				safe = false
			}
		}
		if !seen[c.key] || safe && !safeReq[c.key] {
			seen[c.key] = true
			safeReq[c.key] = safe
			queue = append(queue, c)
		}
	}
	for _, c := range v.spec.order {
		if c.taggedIn(view) {
			if only == nil || only.MatchString(c.key) {
				add(c, false)
			}
		}
	}
	// helpers whose signature changed are treated as having no contract
	for _, c := range v.spec.order {
		if c.opt && !c.iface {
			if fn := v.funcs[c.key]; fn == nil || len(fn.Params) != len(c.params)+b2i(c.recv != "") || fn.Signature.Results().Len() != len(c.results) {
				delete(v.spec.contracts, c.key)
			}
		}
	}
	trusted := map[string]bool{}
	type retry struct {
		t    task
		safe bool
	}
	var again []retry
	var mu sync.Mutex
	for len(queue) > 0 {
		batch := queue
		queue = nil
		var ts []task
		for _, c := range batch {
			ts = append(ts, v.tasksFor(c, res)...)
		}
		sem := make(chan struct{}, jobs)
		var wg sync.WaitGroup
		var used, usedSafe []string
		for _, t := range ts {
			wg.Add(1)
			sem <- struct{}{}
			go func(t task) {
				defer func() { <-sem; wg.Done() }()
				t1 := time.Now()
				safe := safeReq[t.c.key]
				fr, fo, fails, vac := v.attempt(t, view, safe)
				fo.Ms = time.Since(t1).Milliseconds()
				mu.Lock()
				defer mu.Unlock()
				res.Fails = append(res.Fails, fails...)
				if len(fails) > 0 && fr.err == "" {
					again = append(again, retry{t, safe})
				}
				res.Vacuous = append(res.Vacuous, vac...)
				if safe {
					usedSafe = append(usedSafe, fr.used...)
				} else {
					used = append(used, fr.used...)
				}
				for i, o := range res.Functions {
					if o.Function == fo.Function {
						// verified again, now including safety
						res.Functions = append(res.Functions[:i], res.Functions[i+1:]...)
						break
					}
				}
				res.Functions = append(res.Functions, fo)
				if verbose {
					fmt.Printf("%-60s %d/%d (+%d) %d paths %dms inl=%v\n", t.name, fo.Discharged, fo.Obligations, fo.Trivial, fo.Paths, fo.Ms, fo.Inlined)
					for _, l := range fo.Loops {
						fmt.Println("    loop:", l)
					}
					for _, f := range fails {
						fmt.Printf("  %s: %s [%s]\n      %s\n", f.Kind, f.Obligation, f.Where, strings.ReplaceAll(f.Output, "\n", "\n      "))
					}
					for _, s := range vac {
						fmt.Println("  VACUOUS", s)
					}
				}
			}(t)
		}
		wg.Wait()
		sort.Strings(used)
		sort.Strings(usedSafe)
		for i, us := range [][]string{usedSafe, used} {
			for _, u := range us {
				if k, ok := strings.CutPrefix(u, "contract "); ok {
					if only == nil {
						add(v.spec.contracts[k], i == 0)
					}
				} else {
					trusted[u] = true
				}
			}
		}
	}
	for t := range trusted {
		res.Trusted = append(res.Trusted, t)
	}
	sort.Strings(res.Trusted)
	sort.Strings(res.Missing)
	sort.Slice(res.Functions, func(i, j int) bool { return res.Functions[i].Function < res.Functions[j].Function })
	// what failed is tried once more, with other random choices of the solvers
	// and more time, before it is reported
	v.sol.seed, v.sol.tlim = 7, 2*v.sol.tlim
	for _, r := range again {
		if v.sol.ctx.Err() != nil {
			break
		}
		v.sol.nfail.Store(0)
		_, fo, fails, vac := v.attempt(r.t, view, r.safe)
		if verbose {
			fmt.Printf("%-60s again: %d/%d\n", r.t.name, fo.Discharged, fo.Obligations)
		}
		if len(fails) > 0 {
			break
		}
		res.Vacuous = append(res.Vacuous, vac...)
		res.Fails = slices.DeleteFunc(res.Fails, func(f FailOut) bool { return f.Function == r.t.name })
		for i := range res.Functions {
			if res.Functions[i].Function == r.t.name {
				res.Functions[i] = fo
			}
		}
	}
	sort.Slice(res.Fails, func(i, j int) bool {
		if res.Fails[i].Function != res.Fails[j].Function {
			return res.Fails[i].Function < res.Fails[j].Function
		}
		return res.Fails[i].Obligation < res.Fails[j].Obligation
	})
	for _, f := range res.Functions {
		res.Obligations += f.Obligations
		res.Discharged += f.Discharged
		res.Trivial += f.Trivial
	}
	res.InvChecks = v.stats.inv
	res.By = v.stats.by
	res.SolverS = v.stats.solverS
	res.SolverRuns = v.stats.checks
	for _, s := range res.Vacuous {
		res.Fails = append(res.Fails, FailOut{Function: s, Obligation: "the contract is not vacuous", Kind: "undecided", Output: "no execution satisfies the assumptions"})
	}
	if len(res.Functions) == 0 {
		res.Fails = append(res.Fails, FailOut{Obligation: "some function is under contract for " + view, Kind: "undecided"})
	}
	if verbose {
		fmt.Printf("%s: %d/%d obligations, %d closed by the simplifier, %d functions, %d fails, solver %.1fs in %d runs %v\n", view, res.Discharged, res.Obligations, res.Trivial, len(res.Functions), len(res.Fails), res.SolverS, res.SolverRuns, res.By)
	}
}

// attempt verifies one function.
func (v *Verifier) attempt(t task, view string, safe bool) (*FuncResult, FuncOut, []FailOut, []string) {
	fr := v.verify(t.c, t.fn, t.name, view, t.boxed, safe)
	fo := FuncOut{Function: t.name, Trivial: fr.trivial, Paths: fr.paths, Inlined: fr.inlined, Loops: fr.loopLog}
	var fails []FailOut
	var vac []string
	if fr.err != "" {
		k := "unsupported"
		if fr.specErr {
			k = "specification"
		}
		fails = append(fails, FailOut{Function: t.name, Obligation: "the function is within the verifier's reach", Output: fr.err, Kind: k})
	} else {
		vs := v.sol.decide(fr.x, fr.obls)
		for i, vd := range vs {
			fo.Obligations++
			if vd.ok {
				fo.Discharged++
				continue
			}
			k := "undecided"
			if strings.HasPrefix(vd.output, "counterexample") {
				k = "failed"
			} else if strings.HasSuffix(vd.output, "time budget of the run is used up") {
				k = "unfinished"
			}
			fails = append(fails, FailOut{Function: t.name, Obligation: fr.obls[i].name, Where: fr.obls[i].where, Output: vd.output, Kind: k})
		}
		if len(fails) == 0 {
			vac = v.vacuity(fr)
		}
	}
	return fr, fo, fails, vac
}

// vacuity: the precondition must be satisfiable and at least one way through
// the function feasible, or the contract says nothing.
func (v *Verifier) vacuity(fr *FuncResult) []string {
	var bad []string
	ret, dead := 0, 0
	alive := false
	for _, c := range fr.covers {
		inf := v.sol.infeasible(fr.x, c.pc)
		if strings.HasPrefix(c.name, "before ") {
			alive = !inf
			continue
		}
		if strings.HasPrefix(c.name, "after ") {
			if inf && alive {
				bad = append(bad, fr.name+": contradictory "+c.name)
			}
			continue
		}
		if c.name == "precondition" && inf {
			bad = append(bad, fr.name+": precondition is contradictory")
		}
		if strings.HasPrefix(c.name, "return path") {
			ret++
			if inf {
				dead++
			}
			if !inf && !smoking {
				break
			}
		}
	}
	if ret > 0 && ret == dead {
		bad = append(bad, fr.name+": no return is feasible")
	}
	return bad
}
