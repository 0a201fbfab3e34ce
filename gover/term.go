package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed, sorted SMT expressions with light simplification. A
// table belongs to one function's verification, so functions run in parallel.

type Term struct {
	id   int
	op   string // "int","const","bv","true","false", smt operators, or "uf:<name>"
	name string // literal, constant or bound variable name
	args []*Term
	sort string
	vars []*Term // quantifiers: bound variables
	pats []*Term // quantifiers: trigger terms (one multi-pattern)
	open bool    // mentions a bound variable that is not bound inside
	big  *big.Int
}

type TB struct {
	m     map[string]*Term
	n     int
	nfr   int
	True  *Term
	False *Term
}

func NewTB() *TB {
	b := &TB{m: map[string]*Term{}}
	b.True = b.mk("true", "", "Bool")
	b.False = b.mk("false", "", "Bool")
	return b
}

func (b *TB) mk(op, name, sort string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := b.m[k]; ok {
		return t
	}
	t := &Term{id: b.n, op: op, name: name, args: args, sort: sort}
	b.n++
	for _, a := range args {
		if a.open {
			t.open = true
		}
	}
	if op == "bv" {
		t.open = true
	}
	b.m[k] = t
	return t
}

func (b *TB) Int(n int64) *Term { return b.Big(big.NewInt(n)) }
func (b *TB) Big(n *big.Int) *Term {
	t := b.mk("int", n.String(), "Int")
	if t.big == nil {
		t.big = new(big.Int).Set(n)
	}
	return t
}
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *TB) Const(name, sort string) *Term { return b.mk("const", name, sort) }
func (b *TB) Fresh(name, sort string) *Term {
	b.nfr++
	return b.mk("const", fmt.Sprintf("%s!%d", name, b.nfr), sort)
}

// BV makes the bound variable of a quantifier at a nesting depth; equal
// quantified formulas thus become equal terms.
func (b *TB) BV(name string, depth int, sort string) *Term {
	return b.mk("bv", fmt.Sprintf("%s?%d", name, depth), sort)
}
func (b *TB) UF(name, sort string, args ...*Term) *Term {
	if len(args) == 0 {
		return b.Const(name, sort)
	}
	return b.mk("uf:"+name, "", sort, args...)
}

// linear integer arithmetic normal form

type lin struct {
	k  *big.Int
	at map[*Term]*big.Int
}

func (b *TB) lin(t *Term) *lin {
	l := &lin{k: new(big.Int), at: map[*Term]*big.Int{}}
	b.linAdd(l, t, big.NewInt(1))
	return l
}
func (b *TB) linAdd(l *lin, t *Term, c *big.Int) {
	switch t.op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(c, t.big))
	case "+", "uf:sx":
		for _, a := range t.args {
			b.linAdd(l, a, c)
		}
	case "*":
		if t.args[0].op == "int" {
			b.linAdd(l, t.args[1], new(big.Int).Mul(c, t.args[0].big))
			return
		}
		fallthrough
	default:
		if x, ok := l.at[t]; ok {
			x.Add(x, c)
			if x.Sign() == 0 {
				delete(l.at, t)
			}
		} else if c.Sign() != 0 {
			l.at[t] = new(big.Int).Set(c)
		}
	}
}
func (b *TB) unlin(l *lin) *Term {
	var as []*Term
	for t := range l.at {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var args []*Term
	one := big.NewInt(1)
	for _, t := range as {
		c := l.at[t]
		if c.Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, b.mk("*", "", "Int", b.Big(c), t))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, b.Big(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return b.mk("+", "", "Int", args...)
}
func (b *TB) Add(x, y *Term) *Term {
	l := b.lin(x)
	b.linAdd(l, y, big.NewInt(1))
	return b.unlin(l)
}
func (b *TB) Sub(x, y *Term) *Term {
	l := b.lin(x)
	b.linAdd(l, y, big.NewInt(-1))
	return b.unlin(l)
}
func (b *TB) Mul(x, y *Term) *Term {
	if x.op != "int" {
		x, y = y, x
	}
	if x.op == "int" {
		l := &lin{k: new(big.Int), at: map[*Term]*big.Int{}}
		b.linAdd(l, y, x.big)
		return b.unlin(l)
	}
	return b.mk("*", "", "Int", x, y)
}
func (b *TB) AddK(x *Term, k int64) *Term { return b.Add(x, b.Int(k)) }

// SX is the position of element i of a slice starting at off. It is kept as a
// function symbol (defined as off+i) so that quantifiers over elements have
// usable triggers.
func (b *TB) SX(off, i *Term) *Term {
	l := b.lin(off)
	k := l.k
	l.k = new(big.Int)
	o := b.unlin(l)
	i = b.Add(i, b.Big(k))
	if o.op == "int" && o.big.Sign() == 0 {
		return i
	}
	return b.UF("sx", "Int", o, i)
}

// diff returns x-y if that is a constant.
func (b *TB) diff(x, y *Term) (*big.Int, bool) {
	l := b.lin(x)
	b.linAdd(l, y, big.NewInt(-1))
	if len(l.at) == 0 {
		return l.k, true
	}
	return nil, false
}

func (b *TB) Not(t *Term) *Term {
	switch t.op {
	case "true":
		return b.False
	case "false":
		return b.True
	case "not":
		return t.args[0]
	case "<=":
		return b.mk("<", "", "Bool", t.args[1], t.args[0])
	case "<":
		return b.mk("<=", "", "Bool", t.args[1], t.args[0])
	}
	return b.mk("not", "", "Bool", t)
}

func (b *TB) And(ts ...*Term) *Term { return b.nary("and", b.True, b.False, ts) }
func (b *TB) Or(ts ...*Term) *Term  { return b.nary("or", b.False, b.True, ts) }
func (b *TB) nary(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[b.Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(op, "", "Bool", out...)
}
func (b *TB) Implies(x, y *Term) *Term {
	if x == b.True {
		return y
	}
	if x == b.False || y == b.True || x == y {
		return b.True
	}
	if y == b.False {
		return b.Not(x)
	}
	return b.mk("=>", "", "Bool", x, y)
}
func (b *TB) Iff(x, y *Term) *Term { return b.Eq(x, y) }
func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.True || x == y {
		return x
	}
	if c == b.False {
		return y
	}
	if x.sort == "Bool" {
		if x == b.True && y == b.False {
			return c
		}
		if x == b.False && y == b.True {
			return b.Not(c)
		}
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	return b.mk("ite", "", x.sort, c, x, y)
}
func isStrLit(t *Term) bool { return t.op == "const" && strings.HasPrefix(t.name, "str:") }

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq of sorts %s and %s: %s = %s", x.sort, y.sort, x, y))
	}
	switch x.sort {
	case "Int":
		if d, ok := b.diff(x, y); ok {
			return b.Bool(d.Sign() == 0)
		}
	case "Bool":
		if x == b.True {
			return y
		}
		if y == b.True {
			return x
		}
		if x == b.False {
			return b.Not(y)
		}
		if y == b.False {
			return b.Not(x)
		}
	case "Str":
		if isStrLit(x) && isStrLit(y) {
			return b.False
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk("=", "", "Bool", x, y)
}
func (b *TB) Le(x, y *Term) *Term {
	if d, ok := b.diff(x, y); ok {
		return b.Bool(d.Sign() <= 0)
	}
	return b.mk("<=", "", "Bool", x, y)
}
func (b *TB) Lt(x, y *Term) *Term {
	if d, ok := b.diff(x, y); ok {
		return b.Bool(d.Sign() < 0)
	}
	return b.mk("<", "", "Bool", x, y)
}

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// elemSort returns the value sort of an array sort.
func elemSort(s string) string {
	// "(Array K V)"; K is never itself parenthesised here
	r := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	return r[strings.IndexByte(r, ' ')+1:]
}
func (b *TB) Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if i.sort == "Int" {
			if d, ok := b.diff(a.args[1], i); ok && d.Sign() != 0 {
				a = a.args[0]
				continue
			}
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return b.mk("select", "", elemSort(a.sort), a, i)
}
func (b *TB) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == "select" || true {
		if v.op == "select" && v.args[0] == a && v.args[1] == i {
			return a
		}
	}
	return b.mk("store", "", a.sort, a, i, v)
}
func (b *TB) ConstArr(sort string, v *Term) *Term { return b.mk("constarr", "", sort, v) }

func freeVars(t *Term, bound map[*Term]bool, out map[*Term]bool, seen map[*Term]bool) {
	if !t.open {
		return
	}
	if t.op == "bv" {
		if !bound[t] {
			out[t] = true
		}
		return
	}
	if seen[t] && len(bound) == 0 {
		return
	}
	seen[t] = true
	if len(t.vars) > 0 {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.vars {
			nb[v] = true
		}
		bound = nb
	}
	for _, a := range t.args {
		freeVars(a, bound, out, seen)
	}
}

func (b *TB) Quant(q string, vars []*Term, body *Term, pats ...*Term) *Term {
	if body == b.True || body == b.False {
		return body
	}
	fv := map[*Term]bool{}
	freeVars(body, map[*Term]bool{}, fv, map[*Term]bool{})
	used := false
	for _, v := range vars {
		if fv[v] {
			used = true
		}
	}
	if !used {
		return body
	}
	names := ""
	for _, v := range vars {
		names += v.name + ","
	}
	for _, p := range pats {
		names += fmt.Sprintf("p%d,", p.id)
	}
	t := b.mk(q, names, "Bool", body)
	t.vars = vars
	t.pats = pats
	open := false
	for v := range fv {
		is := false
		for _, w := range vars {
			if v == w {
				is = true
			}
		}
		if !is {
			open = true
		}
	}
	t.open = open
	return t
}
func (b *TB) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return b.Quant("forall", vars, body, pats...)
}
func (b *TB) Exists(vars []*Term, body *Term) *Term { return b.Quant("exists", vars, body) }

func (t *Term) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil, 12)
	return sb.String()
}

func quoteSym(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.' || r == '$') {
			n = strings.ReplaceAll(strings.ReplaceAll(n, "|", "!"), "\\", "!")
			return "|" + n + "|"
		}
	}
	return n
}

func writeTerm(sb *strings.Builder, t *Term, named map[*Term]string, depth int) {
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	if depth == 0 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case "int":
		if t.big.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.big).String())
		} else {
			sb.WriteString(t.name)
		}
		return
	case "true", "false":
		sb.WriteString(t.op)
		return
	case "const", "bv":
		sb.WriteString(quoteSym(t.name))
		return
	case "forall", "exists":
		fmt.Fprintf(sb, "(%s (", t.op)
		for _, v := range t.vars {
			fmt.Fprintf(sb, "(%s %s)", quoteSym(v.name), v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], named, depth-1)
		if len(t.pats) > 0 {
			sb.WriteString(" :pattern (")
			for i, p := range t.pats {
				if i > 0 {
					sb.WriteByte(' ')
				}
				writeTerm(sb, p, named, depth-1)
			}
			sb.WriteString("))")
		}
		sb.WriteString(")")
		return
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		writeTerm(sb, t.args[0], named, depth-1)
		sb.WriteString(")")
		return
	}
	op := t.op
	if strings.HasPrefix(op, "uf:") {
		op = quoteSym(op[3:])
	}
	sb.WriteString("(" + op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		writeTerm(sb, a, named, depth-1)
	}
	sb.WriteString(")")
}

// Script renders declarations and definitions shared by a list of terms.
type Script struct {
	decls  map[string]string
	order  []string
	defs   strings.Builder
	named  map[*Term]string
	seen   map[*Term]bool
	count  map[*Term]int
	keyDTs map[string]bool
	strs   []*Term
	ufs    map[string]bool
	consts map[*Term]bool
}

func NewScript() *Script {
	return &Script{decls: map[string]string{}, named: map[*Term]string{}, seen: map[*Term]bool{}, count: map[*Term]int{}, keyDTs: map[string]bool{}, ufs: map[string]bool{}, consts: map[*Term]bool{}}
}

func (s *Script) scan(t *Term) {
	s.count[t]++
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	for _, p := range t.pats {
		s.scan(p)
	}
	for _, a := range t.args {
		s.scan(a)
	}
	noteSort := func(srt string) {
		for {
			i := strings.Index(srt, "K_")
			if i < 0 {
				return
			}
			j := i
			for j < len(srt) && srt[j] != ' ' && srt[j] != ')' {
				j++
			}
			s.keyDTs[srt[i:j]] = true
			srt = srt[j:]
		}
	}
	noteSort(t.sort)
	for _, v := range t.vars {
		noteSort(v.sort)
	}
	switch {
	case t.op == "const":
		s.consts[t] = true
		if isStrLit(t) {
			s.strs = append(s.strs, t)
		}
		s.decl(t.name, fmt.Sprintf("(declare-fun %s () %s)", quoteSym(t.name), t.sort))
	case strings.HasPrefix(t.op, "uf:"):
		n := t.op[3:]
		if strings.HasPrefix(n, "K_") || strings.HasPrefix(n, "k_") {
			return // datatype constructor/selector
		}
		s.ufs[n] = true
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		s.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", quoteSym(n), strings.Join(as, " "), t.sort))
	}
}
func (s *Script) decl(n, d string) {
	if o, ok := s.decls[n]; ok {
		if o != d {
			panic("conflicting declarations: " + o + " / " + d)
		}
		return
	}
	s.decls[n] = d
	s.order = append(s.order, n)
}

// define emits define-funs for shared closed subterms of t, bottom up.
func (s *Script) define(t *Term, done map[*Term]bool) {
	if done[t] {
		return
	}
	done[t] = true
	for _, a := range t.args {
		s.define(a, done)
	}
	for _, a := range t.pats {
		s.define(a, done)
	}
	if len(t.args) > 0 && !t.open && s.count[t] > 1 {
		var sb strings.Builder
		writeTerm(&sb, t, s.named, -1)
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&s.defs, "(define-fun %s () %s %s)\n", n, t.sort, sb.String())
		s.named[t] = n
	}
}

func (s *Script) str(t *Term) string {
	var sb strings.Builder
	writeTerm(&sb, t, s.named, -1)
	return sb.String()
}

// keySort names the datatype sort of a tuple of leaf sorts: K_IIB...
func keySort(sorts []string) string {
	n := "K_"
	for _, s := range sorts {
		n += string(s[0])
	}
	return n
}
func dtDecl(name string) string {
	m := map[byte]string{'I': "Int", 'B': "Bool", 'S': "Str", 'U': "U"}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s.mk", name, name)
	for i, c := range []byte(name[2:]) {
		fmt.Fprintf(&sb, " (k_%s.%d %s)", name[2:], i, m[c])
	}
	sb.WriteString("))))")
	return sb.String()
}
func (b *TB) MkKey(leaves []*Term) *Term {
	if len(leaves) == 1 {
		return leaves[0]
	}
	var ss []string
	for _, l := range leaves {
		ss = append(ss, l.sort)
	}
	ks := keySort(ss)
	return b.mk("uf:"+ks+".mk", "", ks, leaves...)
}
func (b *TB) KeyLeaf(k *Term, i int, sort string, n int) *Term {
	if n == 1 {
		return k
	}
	if strings.HasSuffix(k.op, ".mk") {
		return k.args[i]
	}
	return b.mk(fmt.Sprintf("uf:k_%s.%d", k.sort[2:], i), "", sort, k)
}
