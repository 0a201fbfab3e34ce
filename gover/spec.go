package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	kind  string
	tags  []string // properties; empty: every view
	expr  ast.Expr
	text  string
	label string
	vars  []Param // loopinv: phi typed variables
	list  []string
	mode  string // under: R or W
	auto  bool   // loopinv: guessed from a postcondition
}

func (c *Clause) in(view string) bool {
	if len(c.tags) == 0 {
		return true
	}
	for _, t := range c.tags {
		if t == view {
			return true
		}
	}
	return false
}
func (c *Clause) tagged(view string) bool { return len(c.tags) > 0 && c.in(view) }

type Param struct {
	name string
	typ  string
}

type Contract struct {
	key     string // types.Func full name
	recv    string
	params  []string
	results []string
	clauses []*Clause
	iface   bool
	impls   []string
	closure *Closure
	recFrom string // only calls made from this package are recorded
	record  string
	recIdx  ast.Expr
	trusted string // non-empty: assumed, with this reason
	pos     string
	pkg     string
	opt     bool // helper: may be missing from the code
	used    bool
	noimpl  map[string]bool
}

type Closure struct {
	name    string
	params  []string
	results []string
	clauses []*Clause
	record  string
	recIdx  ast.Expr
	pkg     string
	sig     *types.Signature
	at      ast.Expr // where the function value is stored; nil: the first result
	when    ast.Expr // condition under which it is stored
}

type Pred struct {
	name   string
	params []Param
	ret    string
	body   ast.Expr
	pkg    string
	opaque bool
}

type GhostFn struct {
	name   string
	params []string
	ret    string
	pkg    string
}

type Extern struct {
	key     string
	pure    bool
	writes  int // index of the argument written through, -1 none
	cb      int // index of a callback argument, -1 none
	params  []string
	results []string
	clauses []*Clause
	pkg     string
	used    bool
	total   bool
}

type Spec struct {
	contracts map[string]*Contract
	order     []*Contract
	preds     map[string]*Pred
	ghosts    map[string]*GhostFn
	externs   map[string]*Extern
	axioms    []*Clause
	axPkg     []string
	protect   map[string]bool
	imports   map[string]string
	funcflds  map[string]*Closure
	callbacks map[string]*Closure
	onbox     map[string][]*Clause
	records   map[string]*recInfo
	initonly  map[string]bool
}

type recInfo struct {
	args []types.Type
	rets []types.Type
	an   []string
	rn   []string
}

var clauseKW = map[string]bool{"requires": true, "ensures": true, "panics": true, "safe": true, "modifies": true, "loopinv": true, "under": true, "frame": true, "record": true, "trusted": true, "returns": true, "for": true, "writes": true, "callback": true, "lemma": true, "noimpl": true, "assumes": true, "ensurespanic": true, "maypanic": true, "maypanicif": true}

func parseSpecs(dir string) (*Spec, error) {
	sp := &Spec{contracts: map[string]*Contract{}, preds: map[string]*Pred{}, ghosts: map[string]*GhostFn{}, externs: map[string]*Extern{}, protect: map[string]bool{}, imports: map[string]string{}, funcflds: map[string]*Closure{}, callbacks: map[string]*Closure{}, onbox: map[string][]*Clause{}, records: map[string]*recInfo{}, initonly: map[string]bool{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.parseFile(f); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	return sp, nil
}

type rawClause struct {
	head string
	text string
	line int
}

func splitClauses(lines []string, line0 int) []rawClause {
	var out []rawClause
	for i, l := range lines {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], `"`) {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '[' || r == '\t' })[0]
		if clauseKW[w] {
			out = append(out, rawClause{head: w, text: strings.TrimSpace(t[len(w):]), line: line0 + i})
		} else if len(out) > 0 {
			out[len(out)-1].text += " " + t
		} else {
			out = append(out, rawClause{head: "?", text: t, line: line0 + i})
		}
	}
	return out
}

func takeTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.IndexByte(s, ']')
		return strings.Fields(s[1:j]), strings.TrimSpace(s[j+1:])
	}
	return nil, s
}
func takeLabel(s string) (string, string) {
	// label: expr   with label a single identifier directly followed by ':'
	for i, r := range s {
		if r == ':' && i > 0 && i+1 < len(s) && s[i+1] == ' ' {
			return s[:i], strings.TrimSpace(s[i+1:])
		}
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-') {
			break
		}
	}
	return "", s
}

func parseParams(s string) []Param {
	s = strings.TrimSpace(s)
	s = strings.TrimSuffix(strings.TrimPrefix(s, "("), ")")
	var out []Param
	if strings.TrimSpace(s) == "" {
		return nil
	}
	depth, start := 0, 0
	var parts []string
	for i, r := range s {
		switch r {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				parts = append(parts, s[start:i])
				start = i + 1
			}
		}
	}
	parts = append(parts, s[start:])
	for _, p := range parts {
		p = strings.TrimSpace(p)
		n, t, _ := strings.Cut(p, " ")
		out = append(out, Param{n, strings.TrimSpace(t)})
	}
	return out
}
func names(ps []Param) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.name)
	}
	return out
}

func (sp *Spec) parseClauses(rcs []rawClause, file string) ([]*Clause, error) {
	var out []*Clause
	n := 0
	for _, rc := range rcs {
		c := &Clause{kind: rc.head}
		var rest string
		c.tags, rest = takeTags(rc.text)
		switch rc.head {
		case "requires", "ensures", "lemma", "assumes", "ensurespanic", "maypanicif":
			c.label, rest = takeLabel(rest)
		case "panics":
			rest = strings.TrimSpace(strings.TrimPrefix(rest, "when"))
		case "loopinv":
			if strings.HasPrefix(rest, "(") {
				j := strings.IndexByte(rest, ')')
				// a type may contain () only in func types: not used here
				c.vars = parseParams(rest[:j+1])
				rest = strings.TrimSpace(rest[j+1:])
			}
		case "under":
			c.mode, rest, _ = strings.Cut(rest, " ")
			var l string
			rest, l, _ = strings.Cut(rest, ":")
			c.list = strings.Fields(strings.ReplaceAll(l, ",", " "))
		case "modifies":
			c.list = strings.Fields(strings.ReplaceAll(rest, ",", " "))
			rest = ""
		case "safe", "frame", "maypanic":
			rest = ""
		default:
			return nil, fmt.Errorf("line %d: unknown clause %q", rc.line, rc.head)
		}
		c.text = rest
		if rest != "" {
			e, err := parser.ParseExpr(rest)
			if err != nil {
				return nil, fmt.Errorf("line %d: %q: %v", rc.line, rest, err)
			}
			c.expr = e
		}
		n++
		if c.label == "" {
			c.label = fmt.Sprintf("%s%d", rc.head, n)
		}
		out = append(out, c)
	}
	return out, nil
}

func (sp *Spec) parseFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	lines := strings.Split(string(data), "\n")
	pkg := repoPath
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		if l == "" || strings.HasPrefix(l, "//") {
			continue
		}
		w, rest, _ := strings.Cut(l, " ")
		// block?
		var body []string
		line0 := i + 1
		if strings.HasSuffix(l, "{") {
			rest = strings.TrimSpace(strings.TrimSuffix(rest, "{"))
			depth := 1
			for i++; i < len(lines); i++ {
				t := strings.TrimSpace(lines[i])
				if strings.HasSuffix(t, "{") {
					depth++
				}
				if t == "}" {
					depth--
					if depth == 0 {
						break
					}
				}
				body = append(body, lines[i])
			}
		}
		fail := func(err error) error { return fmt.Errorf("line %d: %w", line0, err) }
		switch w {
		case "package":
			pkg = strings.Trim(rest, `"`)
		case "import":
			a, p, _ := strings.Cut(rest, " ")
			sp.imports[a] = strings.Trim(strings.TrimSpace(p), `"`)
		case "protect":
			t, fl, _ := strings.Cut(rest, ":")
			for _, f := range strings.Fields(fl) {
				sp.protect[strings.TrimSpace(t)+"."+f] = true
			}
		case "pred", "fn", "opaque":
			op := w == "opaque"
			j := strings.IndexByte(rest, '(')
			k := matchParen(rest, j)
			p := &Pred{name: strings.TrimSpace(rest[:j]), params: parseParams(rest[j : k+1]), pkg: pkg, ret: strings.TrimSpace(rest[k+1:]), opaque: op}
			var src string
			for _, bl := range body {
				if q := strings.Index(bl, "//"); q >= 0 {
					bl = bl[:q]
				}
				src += " " + strings.TrimSpace(bl)
			}
			e, err := parser.ParseExpr(src)
			if err != nil {
				return fail(fmt.Errorf("%s: %v", p.name, err))
			}
			p.body = e
			sp.preds[p.name] = p
		case "ghost":
			rest = strings.TrimPrefix(rest, "func ")
			j := strings.IndexByte(rest, '(')
			k := matchParen(rest, j)
			g := &GhostFn{name: strings.TrimSpace(rest[:j]), ret: strings.TrimSpace(rest[k+1:]), pkg: pkg}
			for _, p := range parseParams(rest[j : k+1]) {
				t := p.typ
				if t == "" {
					t = p.name
				}
				g.params = append(g.params, t)
			}
			sp.ghosts[g.name] = g
		case "axiom":
			src := rest
			for _, bl := range body {
				if q := strings.Index(bl, "//"); q >= 0 {
					bl = bl[:q]
				}
				src += " " + strings.TrimSpace(bl)
			}
			lab := ""
			lab, src = takeLabel(strings.TrimSpace(src))
			e, err := parser.ParseExpr(src)
			if err != nil {
				return fail(fmt.Errorf("axiom %q: %v", src, err))
			}
			sp.axioms = append(sp.axioms, &Clause{kind: "axiom", expr: e, text: src, label: lab})
			sp.axPkg = append(sp.axPkg, pkg)
		case "extern":
			ex := &Extern{writes: -1, cb: -1, pkg: pkg}
			if strings.HasPrefix(rest, "pure ") {
				ex.pure = true
				rest = strings.TrimSpace(rest[5:])
			}
			ex.key, ex.params, ex.results = sp.sig(rest, "")
			ex.key = sp.expand(ex.key)
			rcs := splitClauses(body, line0+1)
			var keep []rawClause
			for _, rc := range rcs {
				switch rc.head {
				case "writes":
					fmt.Sscan(rc.text, &ex.writes)
				case "callback":
					fmt.Sscan(rc.text, &ex.cb)
				default:
					keep = append(keep, rc)
				}
			}
			var err error
			if ex.clauses, err = sp.parseClauses(keep, file); err != nil {
				return fail(err)
			}
			sp.externs[ex.key] = ex
		case "onbox":
			cl, err := sp.parseClauses(splitClauses(body, line0+1), file)
			if err != nil {
				return fail(err)
			}
			sp.onbox[shortPkg(pkg)+"."+strings.TrimSpace(rest)] = cl
		case "funcfield", "callback":
			j := strings.IndexByte(rest, '(')
			c := &Closure{name: strings.TrimSpace(rest[:j]), pkg: pkg}
			k := matchParen(rest, j)
			c.params = names(parseParams(rest[j : k+1]))
			c.results = names(parseParams(rest[k+1:]))
			if err := sp.closureBody(c, body, line0, file); err != nil {
				return fail(err)
			}
			if w == "funcfield" {
				sp.funcflds[shortPkg(pkg)+"."+c.name] = c
			} else {
				sp.callbacks[c.name] = c
			}
		case "func", "helper", "interface":
			c := &Contract{pkg: pkg, pos: fmt.Sprintf("%s:%d", filepath.Base(file), line0), opt: w == "helper", iface: w == "interface", noimpl: map[string]bool{}}
			if err := sp.contractHead(c, rest); err != nil {
				return fail(err)
			}
			var keep []string
			for bi := 0; bi < len(body); bi++ {
				t := strings.TrimSpace(body[bi])
				if strings.HasPrefix(t, "returns closure") {
					h := strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(t, "returns closure"), "{"))
					j := strings.IndexByte(h, '(')
					k := matchParen(h, j)
					c.closure = &Closure{name: c.key + "$closure", pkg: pkg, params: names(parseParams(h[j : k+1]))}
					rs, at, isAt := strings.Cut(h[k+1:], " at ")
					if isAt {
						a, w, _ := strings.Cut(at, " when ")
						var err error
						if c.closure.at, err = parser.ParseExpr(strings.TrimSpace(a)); err != nil {
							return fail(err)
						}
						if c.closure.when, err = parser.ParseExpr(strings.TrimSpace(w)); err != nil {
							return fail(err)
						}
					}
					c.closure.results = names(parseParams(rs))
					var cb []string
					for bi++; bi < len(body) && strings.TrimSpace(body[bi]) != "}"; bi++ {
						cb = append(cb, body[bi])
					}
					if err := sp.closureBody(c.closure, cb, line0, file); err != nil {
						return fail(err)
					}
					continue
				}
				keep = append(keep, body[bi])
			}
			var rest2 []rawClause
			for _, rc := range splitClauses(keep, line0+1) {
				switch rc.head {
				case "for":
					c.impls = strings.Fields(strings.ReplaceAll(rc.text, ",", " "))
				case "noimpl":
					for _, f := range strings.Fields(rc.text) {
						c.noimpl[f] = true
					}
				case "record":
					n, by, ok := strings.Cut(rc.text, " by ")
					n, c.recFrom, _ = strings.Cut(n, " from ")
					c.record, c.recFrom = strings.TrimSpace(n), strings.TrimSpace(c.recFrom)
					if ok {
						e, err := parser.ParseExpr(by)
						if err != nil {
							return fail(err)
						}
						c.recIdx = e
					}
				case "trusted":
					c.trusted = rc.text
				default:
					rest2 = append(rest2, rc)
				}
			}
			var err error
			if c.clauses, err = sp.parseClauses(rest2, file); err != nil {
				return fail(err)
			}
			if sp.contracts[c.key] != nil {
				return fail(fmt.Errorf("second contract for %s", c.key))
			}
			sp.contracts[c.key] = c
			sp.order = append(sp.order, c)
		default:
			return fail(fmt.Errorf("unknown declaration %q", w))
		}
	}
	return nil
}

func (sp *Spec) closureBody(c *Closure, body []string, line0 int, file string) error {
	var keep []rawClause
	for _, rc := range splitClauses(body, line0+1) {
		if rc.head == "record" {
			n, by, ok := strings.Cut(rc.text, " by ")
			c.record = strings.TrimSpace(n)
			if ok {
				e, err := parser.ParseExpr(by)
				if err != nil {
					return err
				}
				c.recIdx = e
			}
			continue
		}
		keep = append(keep, rc)
	}
	var err error
	c.clauses, err = sp.parseClauses(keep, file)
	return err
}

func matchParen(s string, j int) int {
	d := 0
	for i := j; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(s) - 1
}

// sig parses "name(params) (results)" where name may begin with a
// parenthesised receiver.
func (sp *Spec) sig(s, pkg string) (key string, params, results []string) {
	s = strings.TrimSpace(s)
	j := 0
	if strings.HasPrefix(s, "(") {
		j = matchParen(s, 0) + 1
	}
	k := strings.IndexByte(s[j:], '(')
	if k < 0 {
		return s, nil, nil
	}
	k += j
	e := matchParen(s, k)
	return strings.TrimSpace(s[:k]), names(parseParams(s[k : e+1])), names(parseParams(s[e+1:]))
}

func (sp *Spec) expand(key string) string {
	for a, p := range sp.imports {
		if strings.HasPrefix(key, a+".") {
			return p + key[len(a):]
		}
		if strings.HasPrefix(key, "("+a+".") {
			return "(" + p + key[len(a)+1:]
		}
		if strings.HasPrefix(key, "(*"+a+".") {
			return "(*" + p + key[len(a)+2:]
		}
	}
	return key
}

// contractHead: "Fn(a, b) (r)", "(recv *T) M(a) (r)" or "I.M(a) (r)".
func (sp *Spec) contractHead(c *Contract, s string) error {
	if strings.HasPrefix(s, "(") {
		j := matchParen(s, 0)
		ps := parseParams(s[:j+1])
		c.recv = ps[0].name
		rt := ps[0].typ
		var n string
		n, c.params, c.results = sp.sig(s[j+1:], "")
		if strings.HasPrefix(rt, "*") {
			c.key = "(*" + c.pkg + "." + rt[1:] + ")." + n
		} else {
			c.key = "(" + c.pkg + "." + rt + ")." + n
		}
		return nil
	}
	n, ps, rs := sp.sig(s, "")
	c.params, c.results = ps, rs
	if c.iface {
		t, m, ok := strings.Cut(n, ".")
		if !ok {
			return fmt.Errorf("interface contract %q needs Type.Method", n)
		}
		c.recv = "this"
		c.key = "(" + c.pkg + "." + t + ")." + m
		return nil
	}
	c.key = c.pkg + "." + n
	return nil
}

var _ = token.NoPos

// deriveInvs guesses loop invariants from the bounded quantifiers of the
// postconditions: what is to hold up to a bound may hold up to the loop's
// counter. Guesses are only candidates; those that are not inductive are dropped.
func deriveInvs(cs []*Clause, results []string) []*Clause {
	for _, c := range cs {
		if c.kind == "loopinv" {
			return nil // the loops have been thought about
		}
	}
	id := func(n string) *ast.Ident { return &ast.Ident{Name: n} }
	var out []*Clause
	seen := map[string]bool{}
	for _, c := range cs {
		if c.kind != "ensures" || c.expr == nil {
			continue
		}
		var walk func(n ast.Node, bad map[string]bool)
		walk = func(n ast.Node, bad map[string]bool) {
			ast.Inspect(n, func(m ast.Node) bool {
				call, ok := m.(*ast.CallExpr)
				if !ok {
					return true
				}
				f, ok := call.Fun.(*ast.Ident)
				if !ok || !strings.HasPrefix(f.Name, "forall") && !strings.HasPrefix(f.Name, "exists") || len(call.Args) < 3 {
					return true
				}
				v, ok := call.Args[0].(*ast.Ident)
				if !ok {
					return true
				}
				inner := map[string]bool{v.Name: true}
				for k := range bad {
					inner[k] = true
				}
				if len(call.Args) == 4 && !mentions(call.Args[3], bad) {
					body := call.Args[3]
					if strings.HasPrefix(f.Name, "exists") {
						body = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: body}}
					}
					add := func(lo, hi ast.Expr, text string) {
						if mentions(lo, bad) || mentions(hi, bad) || seen[text] || len(out) >= 8 {
							return
						}
						seen[text] = true
						out = append(out, &Clause{kind: "loopinv", auto: true, vars: []Param{{name: "k__", typ: "int"}}, text: "guessed: " + text,
							expr: &ast.CallExpr{Fun: id("forall"), Args: []ast.Expr{v, lo, hi, body}}})
					}
					t := types.ExprString(body)
					add(call.Args[1], id("k__"), fmt.Sprintf("forall(%s, %s, k, %s)", v.Name, types.ExprString(call.Args[1]), t))
					add(id("k__"), call.Args[2], fmt.Sprintf("forall(%s, k, %s, %s)", v.Name, types.ExprString(call.Args[2]), t))
				}
				walk(call.Args[len(call.Args)-1], inner)
				return false
			})
		}
		bad := map[string]bool{}
		for _, r := range results {
			bad[r] = true
		}
		walk(c.expr, bad)
	}
	return out
}

func mentions(e ast.Expr, names map[string]bool) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && names[i.Name] {
			r = true
		}
		return true
	})
	return r
}
