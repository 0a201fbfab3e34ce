package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	v     *Verifier
	sem   chan struct{}
	dir   string
	n     int
	mu    sync.Mutex
	seed  int
	tlim  int // seconds per final obligation and solver
	cache map[string]string
	keep  bool
	ctx   context.Context // the time budget of the whole run
	nfail atomic.Int32    // obligations no solver discharged
}

// after this many failed obligations the others are not attempted at length
const maxFails = 4

func newSolver(v *Verifier, tlim, budget int) *Solver {
	d, _ := os.MkdirTemp("", "gover")
	ctx := context.Background()
	if budget > 0 {
		ctx, _ = context.WithTimeout(ctx, time.Duration(budget)*time.Second)
	}
	return &Solver{v: v, ctx: ctx, sem: make(chan struct{}, 8), dir: d, tlim: tlim, cache: map[string]string{}}
}

func (s *Solver) close() { os.RemoveAll(s.dir) }

// script renders the path condition and returns the prelude text together
// with the rendered goals.
func (x *Exec) script(pc []Fact, goals []*Term) (string, []string) {
	sc := NewScript()
	var facts []*Term
	for _, f := range pc {
		facts = append(facts, f.t)
	}
	for _, f := range facts {
		sc.scan(f)
	}
	for _, g := range goals {
		sc.scan(g)
	}
	// axioms of constants, and specification axioms, to a fixpoint
	doneC := map[*Term]bool{}
	doneA := map[int]bool{}
	var ax []*Term
	for {
		changed := false
		var cs []*Term
		for c := range sc.consts {
			if !doneC[c] {
				cs = append(cs, c)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			doneC[c] = true
			for _, a := range x.axioms[c] {
				ax = append(ax, a)
				sc.scan(a)
				changed = true
			}
		}
		for i, a := range x.specAxioms() {
			if doneA[i] {
				continue
			}
			hit := false
			for u := range a.ufs {
				if sc.ufs[u] {
					hit = true
				}
			}
			if hit {
				doneA[i] = true
				ax = append(ax, a.t)
				sc.scan(a.t)
				changed = true
			}
		}
		if !changed && len(cs) == 0 {
			break
		}
	}
	done := map[*Term]bool{}
	for _, a := range ax {
		sc.define(a, done)
	}
	for _, f := range facts {
		sc.define(f, done)
	}
	for _, g := range goals {
		sc.define(g, done)
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort U 0)\n(declare-sort Str 0)\n")
	var dts []string
	for k := range sc.keyDTs {
		dts = append(dts, fmt.Sprint(k))
	}
	sort.Strings(dts)
	for _, k := range dts {
		sb.WriteString(dtDecl(k) + "\n")
	}
	for _, n := range sc.order {
		sb.WriteString(sc.decls[n] + "\n")
	}
	sb.WriteString(sc.defs.String())
	if len(sc.strs) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range sc.strs {
			sb.WriteString(" " + quoteSym(s.name))
		}
		sb.WriteString("))\n")
	}
	if sc.ufs["mark"] {
		sb.WriteString("(assert (forall ((i Int)) (! (mark i) :pattern ((mark i)))))\n")
	}
	if sc.ufs["sx"] {
		sb.WriteString("(assert (forall ((o Int) (i Int)) (! (= (sx o i) (+ o i)) :pattern ((sx o i)))))\n")
	}
	for _, a := range ax {
		fmt.Fprintf(&sb, "(assert %s)\n", sc.str(a))
	}
	for _, f := range facts {
		fmt.Fprintf(&sb, "(assert %s)\n", sc.str(f))
	}
	var gs []string
	for _, g := range goals {
		gs = append(gs, sc.str(g))
	}
	return sb.String(), gs
}

type specAx struct {
	t   *Term
	ufs map[string]bool
}

func (x *Exec) specAxioms() []specAx {
	if x.axDone {
		return x.axList
	}
	x.axDone = true
	st := &State{facts: map[*Term]bool{}, heap: map[string]*Term{}, hw: x.b.Const("hw0", "Int")}
	for i, c := range x.v.spec.axioms {
		env := &SEnv{vars: map[string]Val{}, st: st, old: st, pkg: x.v.spec.axPkg[i], hwOld: st.hw}
		t := x.evBool(c.expr, env)
		sc := NewScript()
		sc.scan(t)
		x.axList = append(x.axList, specAx{t, sc.ufs})
	}
	return x.axList
}

func (s *Solver) run(name string, args []string, script string, sec float64) string {
	return s.runCtx(s.ctx, name, args, script, sec)
}

func (s *Solver) runCtx(parent context.Context, name string, args []string, script string, sec float64) string {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	if parent.Err() != nil {
		return ""
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(parent, time.Duration((sec+2)*float64(time.Second)))
	defer cancel()
	s.mu.Lock()
	s.n++
	f := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", s.n))
	s.mu.Unlock()
	if s.seed != 0 && strings.HasPrefix(name, "z3") {
		script = fmt.Sprintf("(set-option :smt.random_seed %d)\n", s.seed) + script
	}
	os.WriteFile(f, []byte(script), 0o644)
	if !s.keep {
		defer os.Remove(f)
	}
	cmd := exec.CommandContext(ctx, name, append(args, f)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	st := s.v.stats
	st.mu.Lock()
	st.solverS += time.Since(t0).Seconds()
	st.checks++
	st.mu.Unlock()
	return out.String()
}

// prove decides a batch of goals under one path condition, incrementally and
// with a resource limit; "false" may mean unknown.
func (x *Exec) prove(pc []Fact, goals []*Term, what string, effort ...int) []bool {
	res := make([]bool, len(goals))
	var todo []int
	facts := map[*Term]bool{}
	for _, f := range pc {
		facts[f.t] = true
	}
	for i, g := range goals {
		if g == x.b.True || facts[g] {
			res[i] = true
			continue
		}
		if g == x.b.False {
			// may still follow from an inconsistent path
		}
		todo = append(todo, i)
	}
	if len(todo) == 0 {
		return res
	}
	var gs []*Term
	for _, i := range todo {
		gs = append(gs, goals[i])
	}
	parts := make([][]int, len(gs)) // positions of the goal's parts among all
	all := append([]*Term{}, gs...)
	for k, g := range gs {
		for _, p := range x.splitGoal(g) {
			parts[k] = append(parts[k], len(all))
			all = append(all, p)
		}
	}
	pre, renderedAll := x.script(pc, all)
	rendered := renderedAll[:len(gs)]
	// in a few incremental runs; each first asks whether the path is feasible at all
	const chunk = 12
	nch := (len(rendered) + chunk - 1) / chunk
	answers := make([][]string, nch)
	errs := make([]string, nch)
	var wg0 sync.WaitGroup
	for c := 0; c < nch; c++ {
		wg0.Add(1)
		go func(c int) {
			defer wg0.Done()
			var sb strings.Builder
			sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 300000)\n")
			sb.WriteString(pre)
			sb.WriteString("(push 1)\n(check-sat)\n(pop 1)\n")
			for _, g := range rendered[c*chunk : min(len(rendered), c*chunk+chunk)] {
				fmt.Fprintf(&sb, "(push 1)\n(assert (not %s))\n(check-sat)\n(pop 1)\n", g)
			}
			out := x.v.sol.run("z3-new", nil, sb.String(), 60)
			for _, l := range strings.Split(out, "\n") {
				l = strings.TrimSpace(l)
				switch l {
				case "sat", "unsat", "unknown":
					answers[c] = append(answers[c], l)
				default:
					if strings.HasPrefix(l, "(error") && !strings.Contains(l, "canceled") && !strings.Contains(l, "max. resource") {
						errs[c] = l
					}
				}
			}
		}(c)
	}
	wg0.Wait()
	ans := []string{""}
	for c := range answers {
		if errs[c] != "" {
			panic("solver: " + errs[c])
		}
		if len(answers[c]) > 0 && answers[c][0] == "unsat" {
			// the path is infeasible: everything holds
			for _, i := range todo {
				res[i] = true
			}
			return res
		}
		for len(answers[c]) < 1+min(len(rendered)-c*chunk, chunk) {
			answers[c] = append(answers[c], "unknown")
		}
		ans = append(ans, answers[c][1:]...)
	}
	var wg sync.WaitGroup
	for k, i := range todo {
		if k+1 < len(ans) && ans[k+1] != "unknown" {
			res[i] = ans[k+1] == "unsat"
			continue
		}
		// on its own the solver does better than incrementally
		rl := 1000000
		if len(effort) > i {
			rl = effort[i]
		}
		if rl == 0 {
			continue
		}
		res[i] = true
		var mu sync.Mutex
		ctx, cancel := context.WithCancel(x.v.sol.ctx)
		defer cancel()
		for _, p := range parts[k] {
			wg.Add(1)
			go func(p, i int) {
				defer wg.Done()
				t0 := time.Now()
				o := x.v.sol.runCtx(ctx, "z3-new", nil, fmt.Sprintf("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit %d)\n", rl)+pre+fmt.Sprintf("(assert (not %s))\n(check-sat)\n", renderedAll[p]), 40)
				ok := strings.HasPrefix(strings.TrimSpace(o), "unsat")
				if !ok && rl >= 5000000 && ctx.Err() == nil && time.Since(t0) > 4*time.Second {
					// (a quick answer means that there is nothing left to instantiate) a declared invariant is not given up before the others have tried
					ok = x.v.sol.second(ctx, pre+fmt.Sprintf("(assert (not %s))\n(check-sat)\n", renderedAll[p]))
					if debugLoops && ctx.Err() == nil {
						fmt.Printf("    [%s] %.1fs second try %v: %.200s\n", x.rootName, time.Since(t0).Seconds(), ok, all[p].String())
					}
				}
				if !ok {
					mu.Lock()
					if debugLoops && ctx.Err() == nil {
						fmt.Printf("    [%s] %.1fs not proved (%s): %.400s\n", x.rootName, time.Since(t0).Seconds(), strings.TrimSpace(o), all[p].String())
					}
					res[i] = false
					mu.Unlock()
					cancel()
				}
			}(p, i)
		}
	}
	wg.Wait()
	return res
}

// second has other solvers try a query that the first left open.
func (s *Solver) second(parent context.Context, body string) bool {
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	atts := []struct {
		name string
		args []string
		head string
	}{
		{"cvc5", []string{"--tlimit=15000", "--arrays-exp"}, "(set-logic ALL)\n"},
		{"z3-new", []string{"-T:15"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 11)\n"},
		{"z3", []string{"-T:15"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	}
	ch := make(chan bool, len(atts))
	for _, a := range atts {
		go func() {
			ch <- strings.HasPrefix(strings.TrimSpace(s.runCtx(ctx, a.name, a.args, a.head+body, 15)), "unsat")
		}()
	}
	for range atts {
		if <-ch {
			return true
		}
	}
	return false
}

func firstLines(s string, n int) string {
	if n == 0 {
		return ""
	}
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

type Verdict struct {
	ok     bool
	by     string
	output string
	model  string
}

// decide discharges the final obligations of one function.
func (s *Solver) decide(x *Exec, obls []Oblig) []Verdict {
	res := make([]Verdict, len(obls))
	// batches sharing a path condition
	type batch struct{ idx []int }
	var order []string
	bs := map[string]*batch{}
	for i, o := range obls {
		if o.goal == x.b.True {
			res[i] = Verdict{ok: true, by: "simplifier"}
			continue
		}
		k := fmt.Sprint(len(o.pc))
		if len(o.pc) > 0 {
			k += fmt.Sprintf("/%p/%d", &o.pc[0], o.pc[len(o.pc)-1].t.id)
		}
		if bs[k] == nil {
			bs[k] = &batch{}
			order = append(order, k)
		}
		bs[k].idx = append(bs[k].idx, i)
	}
	// scripts are rendered sequentially (terms are shared), solved in parallel
	type job struct {
		idx   []int
		pre   string
		goals []string
		parts [][]string
	}
	var jobs []job
	for _, k := range order {
		idx := bs[k].idx
		var gs []*Term
		for _, i := range idx {
			gs = append(gs, obls[i].goal)
		}
		n := len(gs)
		at := make([]int, n+1)
		for i := 0; i < n; i++ {
			at[i] = len(gs)
			gs = append(gs, x.splitGoal(gs[i])...)
		}
		at[n] = len(gs)
		pre, r := x.script(obls[idx[0]].pc, gs)
		parts := make([][]string, n)
		for i := range parts {
			parts[i] = r[at[i]:at[i+1]]
		}
		r = r[:n]
		for len(r) > 10 {
			jobs = append(jobs, job{idx[:10], pre, r[:10], parts[:10]})
			idx, r, parts = idx[10:], r[10:], parts[10:]
		}
		jobs = append(jobs, job{idx, pre, r, parts})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			var sb strings.Builder
			sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 300000)\n")
			sb.WriteString(j.pre)
			for _, g := range j.goals {
				fmt.Fprintf(&sb, "(push 1)\n(assert (not %s))\n(check-sat)\n(pop 1)\n", g)
			}
			out := s.run("z3-new", nil, sb.String(), float64(30))
			var ans []string
			for _, l := range strings.Split(out, "\n") {
				switch l := strings.TrimSpace(l); l {
				case "sat", "unsat", "unknown":
					ans = append(ans, l)
				}
			}
			var wg2 sync.WaitGroup
			for k, i := range j.idx {
				if k < len(ans) && ans[k] == "unsat" {
					res[i] = Verdict{ok: true, by: "z3-new"}
					continue
				}
				wg2.Add(1)
				go func(k, i int) {
					defer wg2.Done()
					t0 := time.Now()
					res[i] = s.decideParts(j.pre, j.parts[k])
					if debugSlow {
						a := "none"
						if k < len(ans) {
							a = ans[k]
						}
						fmt.Printf("  SLOW %s: batch %s, then %.1fs by %s: %s [%s]\n", x.rootName, a, time.Since(t0).Seconds(), res[i].by, obls[i].name, obls[i].where)
					}
				}(k, i)
			}
			wg2.Wait()
		}(j)
	}
	wg.Wait()
	for _, r := range res {
		if r.ok {
			s.v.stats.mu.Lock()
			s.v.stats.by[r.by]++
			s.v.stats.mu.Unlock()
		}
	}
	return res
}

var debugSlow = os.Getenv("GOVER_SLOW") != ""

// splitGoal takes a goal apart into parts that are proved separately.
func (x *Exec) splitGoal(g *Term) []*Term {
	b := x.b
	var out []*Term
	switch g.op {
	case "and":
		for _, a := range g.args {
			out = append(out, x.splitGoal(a)...)
		}
	case "=>":
		for _, p := range x.splitGoal(g.args[1]) {
			out = append(out, b.Implies(g.args[0], p))
		}
	case "ite":
		for _, p := range x.splitGoal(g.args[1]) {
			out = append(out, b.Implies(g.args[0], p))
		}
		for _, p := range x.splitGoal(g.args[2]) {
			out = append(out, b.Implies(b.Not(g.args[0]), p))
		}
	case "=":
		l, r := g.args[0], g.args[1]
		if l.sort != "Bool" || l.op != "and" && r.op != "and" && l.op != "forall" && r.op != "forall" {
			return []*Term{g}
		}
		out = append(x.splitGoal(b.Implies(l, r)), x.splitGoal(b.Implies(r, l))...)
	case "forall":
		for _, p := range x.splitGoal(g.args[0]) {
			out = append(out, b.Quant("forall", g.vars, p))
		}
	default:
		return []*Term{g}
	}
	if len(out) > 48 {
		return []*Term{g}
	}
	return out
}

func (s *Solver) decideParts(pre string, parts []string) Verdict {
	if len(parts) == 1 {
		return s.decideOne(s.ctx, pre, parts[0])
	}
	ctx, cancel := context.WithCancel(s.ctx)
	defer cancel()
	ch := make(chan Verdict, len(parts))
	for _, p := range parts {
		go func(p string) { ch <- s.decideOne(ctx, pre, p) }(p)
	}
	by := ""
	for range parts {
		v := <-ch
		if !v.ok {
			return v
		}
		if by == "" || v.by != "z3-new" {
			by = v.by
		}
	}
	return Verdict{ok: true, by: by}
}

func (s *Solver) decideOne(parent context.Context, pre, goal string) Verdict {
	if s.ctx.Err() != nil {
		return Verdict{output: "not attempted: the time budget of the run is used up"}
	}
	if s.nfail.Load() >= maxFails {
		return Verdict{output: "not attempted: other obligations already failed"}
	}
	body := pre + fmt.Sprintf("(assert (not %s))\n(check-sat)\n", goal)
	type att struct {
		name string
		args []string
		head string
	}
	t := s.tlim
	atts := []att{
		{"z3-new", []string{fmt.Sprintf("-T:%d", t)}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
		{"cvc5", []string{fmt.Sprintf("--tlimit=%d", t*1000), "--arrays-exp"}, "(set-logic ALL)\n"},
		{"z3", []string{fmt.Sprintf("-T:%d", t)}, ""},
		{"z3-new", []string{fmt.Sprintf("-T:%d", t)}, ""},
	}
	var outs []string
	sat := false
	ch := make(chan [3]string, len(atts))
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	for _, a := range atts {
		go func(a att) {
			b := a.head + body
			o := s.runCtx(ctx, a.name, a.args, b, float64(t))
			ch <- [3]string{a.name, o, ""}
		}(a)
	}
	for range atts {
		r := <-ch
		l := strings.TrimSpace(r[1])
		first, _, _ := strings.Cut(l, "\n")
		if first == "unsat" {
			return Verdict{ok: true, by: r[0]}
		}
		if first == "sat" {
			sat = true
		}
		outs = append(outs, r[0]+": "+firstLines(l, 3))
	}
	if s.ctx.Err() != nil {
		return Verdict{output: "not decided: the time budget of the run is used up"}
	}
	if parent.Err() == nil {
		s.nfail.Add(1)
	}
	if debugSlow {
		os.WriteFile(fmt.Sprintf("/tmp/fail%d.smt2", s.nfail.Load()), []byte(body), 0o644)
	}
	v := Verdict{output: strings.Join(outs, "\n")}
	if sat {
		v.output = "counterexample exists\n" + v.output
	}
	return v
}

// feasible reports false only if the path condition is contradictory.
func (s *Solver) infeasible(x *Exec, pc []Fact) bool {
	pre, _ := x.script(pc, nil)
	out := s.run("z3-new", []string{"-T:3"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 5000000)\n"+pre+"(check-sat)\n", 3)
	if os.Getenv("GOVER_VAC") != "" && strings.HasPrefix(strings.TrimSpace(out), "unsat") {
		os.WriteFile(os.Getenv("GOVER_VAC"), []byte(pre+"(check-sat)\n"), 0o644)
	}
	return strings.HasPrefix(strings.TrimSpace(out), "unsat")
}
