package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
	"github.com/grafana/thema/internal/zzverif/hlib"
)

type (
	Case = hlib.Case
	Ver  = thema.SyntacticVersion
	Data = map[string]any
)

// Fld is a field of a modelled schema.
type Fld struct {
	Name string
	Opt  bool
	T    string
}

var cueType = map[string]string{
	"string": "string",
	"int":    "int",
	"bool":   "bool",
	"small":  "int & >=0 & <100",
	"enum":   `"a" | "b" | "c"`,
	"strs":   "[...string]",
	"sub":    "{x: int, y?: string}",
	"def":    "int | *7",
	"defs":   `string | *"dflt"`,
}

var scalarTypes = []string{"string", "int", "bool", "small", "enum", "strs", "sub"}

// isDef: a required field of the type has a default (an open list has the empty list)
func isDef(t string) bool { return t == "def" || t == "defs" || t == "strs" }

func (f Fld) def() bool { return !f.Opt && isDef(f.T) }

func defVal(t string) any {
	switch t {
	case "def":
		return 7
	case "strs":
		return []any{}
	}
	return "dflt"
}

// accepts is the model of one field's type.
func accepts(t string, v any) bool {
	switch t {
	case "string", "defs":
		_, ok := v.(string)
		return ok
	case "int", "def":
		_, ok := v.(int)
		return ok
	case "bool":
		_, ok := v.(bool)
		return ok
	case "small":
		n, ok := v.(int)
		return ok && n >= 0 && n < 100
	case "enum":
		s, ok := v.(string)
		return ok && (s == "a" || s == "b" || s == "c")
	case "strs":
		l, ok := v.([]any)
		if !ok {
			return false
		}
		for _, e := range l {
			if _, ok := e.(string); !ok {
				return false
			}
		}
		return true
	case "sub":
		m, ok := v.(Data)
		if !ok {
			return false
		}
		for k, e := range m {
			switch k {
			case "x":
				if _, ok := e.(int); !ok {
					return false
				}
			case "y":
				if _, ok := e.(string); !ok {
					return false
				}
			default:
				return false
			}
		}
		_, has := m["x"]
		return has
	}
	panic(t)
}

func pick[T any](c *Case, l ...T) T { return l[c.Intn(len(l))] }

func genVal(c *Case, t string) any {
	switch t {
	case "string", "defs":
		return pick(c, "", "x", "héllo", "a b", "schemas", "long-"+strings.Repeat("z", c.Intn(20)))
	case "int", "def":
		return pick(c, 0, 1, -1, 7, 8, 1<<40, c.Intn(1000))
	case "bool":
		return c.Intn(2) == 0
	case "small":
		return pick(c, 0, 99, c.Intn(100))
	case "enum":
		return pick(c, "a", "b", "c")
	case "strs":
		l := []any{}
		for n := c.Intn(4); n > 0; n-- {
			l = append(l, genVal(c, "string"))
		}
		return l
	case "sub":
		m := Data{"x": genVal(c, "int")}
		if c.Intn(2) == 0 {
			m["y"] = genVal(c, "string")
		}
		return m
	}
	panic(t)
}

func badVal(c *Case, t string) any {
	for {
		v := pick[any](c, "q", 100, -1, 12345, true, []any{1}, []any{"s"}, Data{"x": "s"}, Data{"x": 1, "z": 2}, Data{})
		if !accepts(t, v) {
			return v
		}
	}
}

// Lin is a modelled lineage.
type Lin struct {
	Name   string
	Vers   []Ver
	Sch    [][]Fld
	Join   []Fld
	Lac    map[string][]LacM // lens id -> lacunas
	Lenses bool              // CUE lenses are part of the source
	Opts   []thema.BindOption
	// examples per schema
	Ex []map[string]Data
}

type LacM struct {
	Msg  string
	Typ  int
	Path string
	Val  int
	// "true", "false", "" (absent), or "x" (depends on the input: holds iff the trace is longer than 3)
	Cond string
}

// how many source and target fields it has
func (l LacM) nsrc() int { return (l.Val + 1) % 5 }
func (l LacM) ntgt() int { return (l.Val + 1) / 5 % 4 }

var lacNames = map[int]string{1: "Placeholder", 2: "DroppedField", 3: "LossyFieldMapping", 4: "ChangedDefault"}

func (l *Lin) all(i int) []Fld { return append(append([]Fld{}, l.Join...), l.Sch[i]...) }

// ok is the model of Validate.
func (l *Lin) ok(i int, d Data) bool {
	fs := map[string]Fld{}
	for _, f := range l.all(i) {
		fs[f.Name] = f
	}
	for k, v := range d {
		f, has := fs[k]
		if !has || !accepts(f.T, v) {
			return false
		}
	}
	for _, f := range fs {
		if _, has := d[f.Name]; !has && !f.Opt && !f.def() {
			return false
		}
	}
	return true
}

func (l *Lin) idx(v Ver) int {
	for i, o := range l.Vers {
		if o == v {
			return i
		}
	}
	return -1
}

func (l *Lin) gen(c *Case, i int) Data {
	d := Data{}
	for _, f := range l.all(i) {
		if (f.Opt || f.def()) && c.Intn(2) == 0 {
			continue
		}
		d[f.Name] = genVal(c, f.T)
	}
	if _, has := d["trace"]; has {
		d["trace"] = pick(c, "", "t", "abc", "trace")
	}
	return d
}

// mutate changes d, mostly into something that schema i does not accept.
func (l *Lin) mutate(c *Case, i int, d Data) Data {
	n := Data{}
	for k, v := range d {
		n[k] = v
	}
	fs := l.all(i)
	f := fs[c.Intn(len(fs))]
	switch c.Intn(4) {
	case 0:
		delete(n, f.Name)
	case 1:
		n[pick(c, "zz", "schemas", "extra", "version", f.Name+"x")] = 1
	case 2:
		n[f.Name] = badVal(c, f.T)
	case 3:
		n[f.Name] = genVal(c, f.T)
	}
	return n
}

// shape makes a sequence of version numbers.
func shape(c *Case, max int) []int {
	switch c.Intn(12) {
	case 0:
		return []int{1}
	case 1: // long minors
		return []int{min(max, 11+c.Intn(3))}
	case 2: // many majors
		n := min(max, 5+c.Intn(5))
		s := make([]int, n)
		for i := range s {
			s[i] = 1
		}
		return s
	}
	var s []int
	left := max
	for n := 1 + c.Intn(5); n > 0 && left > 0; n-- {
		k := min(left, 1+c.Intn(3))
		s = append(s, k)
		left -= k
	}
	return s
}

func versOf(s []int) (vs []Ver) {
	for maj, n := range s {
		for m := 0; m < n; m++ {
			vs = append(vs, thema.SV(uint(maj), uint(m)))
		}
	}
	return vs
}

type genOpts struct {
	defaults bool
	join     bool
	lenses   bool
	lacunas  bool
	plain    bool // scalar types only
	examples bool
}

func genLin(c *Case, vs []Ver, o genOpts) *Lin {
	l := &Lin{Name: pick(c, "lin", "foo", "thing"), Vers: vs, Lac: map[string][]LacM{}, Lenses: o.lenses}
	if o.join && c.Intn(3) == 0 {
		l.Join = []Fld{{"jn", c.Intn(2) == 0, "small"}}
	}
	ty := func() string {
		if o.plain {
			return pick(c, "string", "int", "bool")
		}
		return pick(c, scalarTypes...)
	}
	var cur []Fld
	nopt := 0
	for i, v := range vs {
		if i == 0 || v[0] != vs[i-1][0] {
			keep := []Fld{{"trace", false, "string"}, {fmt.Sprintf("m%d", v[0]), false, ty()}}
			if o.defaults && c.Intn(2) == 0 {
				keep = append(keep, Fld{"d", false, pick(c, "def", "defs")})
			}
			for _, f := range cur {
				// some optional fields survive a new major
				if f.Opt && c.Intn(3) == 0 {
					keep = append(keep, f)
				}
			}
			cur = keep
		} else {
			cur = append(append([]Fld{}, cur...), Fld{fmt.Sprintf("o%d", nopt), true, ty()})
			nopt++
		}
		l.Sch = append(l.Sch, cur)
	}
	if o.lacunas {
		alike := c.Intn(2) == 0 // the same lacunas again and again
		for _, id := range l.lensIDs() {
			k := fmt.Sprint(id)
			for n := pick(c, 0, 1, 2, 3, 5); n > 0; n-- {
				if alike {
					l.Lac[k] = append(l.Lac[k], LacM{Msg: pick(c, "m", "m", "n", ""), Typ: 1 + c.Intn(2), Path: "a", Val: c.Intn(2), Cond: pick(c, "true", "", "x")})
					continue
				}
				l.Lac[k] = append(l.Lac[k], LacM{
					Msg: fmt.Sprintf("msg %v %d", id, c.Intn(1000)), Typ: 1 + c.Intn(4), Path: pick(c, "a", "b.c"), Val: c.Intn(50),
					Cond: pick(c, "true", "false", "", "x"),
				})
			}
		}
	}
	if o.examples {
		for i := range vs {
			ex := map[string]Data{}
			for n := c.Intn(3); n > 0; n-- {
				ex[pick(c, "one", "two", "three")] = l.gen(c, i)
			}
			l.Ex = append(l.Ex, ex)
		}
	}
	return l
}

type lensid struct{ From, To Ver }

// lensIDs lists the lenses the lineage needs, in ascending (to, from) order.
func (l *Lin) lensIDs() (ids []lensid) {
	for i := 1; i < len(l.Vers); i++ {
		ids = append(ids, lensid{l.Vers[i], l.Vers[i-1]})
		if l.Vers[i][0] != l.Vers[i-1][0] {
			ids = append(ids, lensid{l.Vers[i-1], l.Vers[i]})
		}
	}
	sort.SliceStable(ids, func(a, b int) bool {
		if ids[a].To != ids[b].To {
			return lessV(ids[a].To, ids[b].To)
		}
		return lessV(ids[a].From, ids[b].From)
	})
	return ids
}

func lessV(a, b Ver) bool { return a[0] < b[0] || a[0] == b[0] && a[1] < b[1] }

func constOf(t string) any {
	switch t {
	case "string":
		return "konst"
	case "int", "small":
		return 42
	case "bool":
		return true
	case "enum":
		return "b"
	case "strs":
		return []any{"k"}
	case "sub":
		return Data{"x": 3}
	}
	panic(t)
}

func marker(id lensid) string { return fmt.Sprintf(">%s-%s", vs(id.From), vs(id.To)) }
func vs(v Ver) string         { return fmt.Sprintf("%d.%d", v[0], v[1]) }
func vlist(v Ver) string      { return fmt.Sprintf("[%d, %d]", v[0], v[1]) }

// same reports whether field f of schema j is in schema i too, as required or with the same optionality.
func (l *Lin) same(i int, f Fld) bool {
	for _, g := range l.all(i) {
		if g == f {
			return true
		}
	}
	return false
}

func (l *Lin) renderLens(id lensid) string {
	var b strings.Builder
	i, j := l.idx(id.From), l.idx(id.To)
	fmt.Fprintf(&b, "{from: %s, to: %s, input: _, result: {\n", vlist(id.From), vlist(id.To))
	for _, f := range l.all(j) {
		switch {
		case f.Name == "trace":
			fmt.Fprintf(&b, "  trace: \"\\(input.trace)%s\"\n", marker(id))
		case f.def():
		case f.Opt && l.same(i, f):
			fmt.Fprintf(&b, "  if input.%s != _|_ {%s: input.%s}\n", f.Name, f.Name, f.Name)
		case f.Opt:
		case l.same(i, f):
			fmt.Fprintf(&b, "  %s: input.%s\n", f.Name, f.Name)
		default:
			fmt.Fprintf(&b, "  %s: %s\n", f.Name, cueLit(constOf(f.T)))
		}
	}
	b.WriteString("}")
	if ls := l.Lac[fmt.Sprint(id)]; len(ls) > 0 {
		b.WriteString(", lacunas: [\n")
		for _, lc := range ls {
			src, tgt := "", ""
			for k := 0; k < lc.nsrc(); k++ {
				src += fmt.Sprintf("{path: %q, value: %d}, ", lc.Path, lc.Val+k)
			}
			for k := 0; k < lc.ntgt(); k++ {
				tgt += fmt.Sprintf("{path: \"t%d\", value: \"v\"}, ", k)
			}
			fmt.Fprintf(&b, "  {sourceFields: [%s], targetFields: [%s], type: {name: %q, id: %d}, message: %q", src, tgt, lacNames[lc.Typ], lc.Typ, lc.Msg)
			switch lc.Cond {
			case "true", "false":
				fmt.Fprintf(&b, ", condition: %s", lc.Cond)
			case "x":
				fmt.Fprintf(&b, ", condition: len(input.trace) > 3")
			}
			b.WriteString("},\n")
		}
		b.WriteString("]")
	}
	b.WriteString("},\n")
	return b.String()
}

func renderFields(fs []Fld) string {
	var b strings.Builder
	for _, f := range fs {
		o := ""
		if f.Opt {
			o = "?"
		}
		fmt.Fprintf(&b, "    %s%s: %s\n", f.Name, o, cueType[f.T])
	}
	return b.String()
}

func (l *Lin) render() string {
	var b strings.Builder
	fmt.Fprintf(&b, "name: %q\n", l.Name)
	if len(l.Join) > 0 {
		fmt.Fprintf(&b, "joinSchema: {\n%s}\n", renderFields(l.Join))
	}
	b.WriteString("schemas: [\n")
	for i, v := range l.Vers {
		fmt.Fprintf(&b, "  {version: %s, schema: {\n%s  }", vlist(v), renderFields(l.Sch[i]))
		if l.Ex != nil && len(l.Ex[i]) > 0 {
			b.WriteString(", examples: {\n")
			for _, k := range hlib.SortedKeys(l.Ex[i]) {
				fmt.Fprintf(&b, "    %s: %s\n", k, cueLit(l.Ex[i][k]))
			}
			b.WriteString("  }")
		}
		b.WriteString("},\n")
	}
	b.WriteString("]\nlenses: [\n")
	if l.Lenses {
		for _, id := range l.lensIDs() {
			b.WriteString(l.renderLens(id))
		}
	}
	b.WriteString("]\n")
	return b.String()
}

func cueLit(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// step is the model of one translation step.
func (l *Lin) step(i, j int, d Data, cueLens bool) (Data, []LacM) {
	id := lensid{l.Vers[i], l.Vers[j]}
	n := Data{}
	if j > i && l.Vers[i][0] == l.Vers[j][0] {
		for k, v := range d {
			n[k] = v
		}
		if cueLens {
			for _, f := range l.all(j) {
				if _, has := n[f.Name]; !has && f.def() {
					n[f.Name] = defVal(f.T)
				}
			}
		}
		return n, nil
	}
	tr := d["trace"].(string)
	for _, f := range l.all(j) {
		switch {
		case f.Name == "trace":
			n["trace"] = tr + marker(id)
		case f.def():
			if cueLens {
				n[f.Name] = defVal(f.T)
			}
		case l.same(i, f):
			if v, has := d[f.Name]; has {
				n[f.Name] = v
			}
		case f.Opt:
		default:
			n[f.Name] = constOf(f.T)
		}
	}
	var lacs []LacM
	for _, lc := range l.Lac[fmt.Sprint(id)] {
		if lc.Cond == "" || lc.Cond == "true" || lc.Cond == "x" && len(tr) > 3 {
			lacs = append(lacs, lc)
		}
	}
	return n, lacs
}

// translate is the model of Translate. stop < 0: to the end.
func (l *Lin) translate(i, j int, d Data, cueLens bool) (Data, []LacM) {
	var lacs []LacM
	for i != j {
		k := i + 1
		if j < i {
			k = i - 1
		}
		var ls []LacM
		d, ls = l.step(i, k, d, cueLens)
		lacs = append(lacs, ls...)
		i = k
	}
	return d, lacs
}

// lensPath lists the explicit lenses used from i to j.
func (l *Lin) lensPath(i, j int) (ids []lensid) {
	for i != j {
		k := i + 1
		if j < i {
			k = i - 1
		}
		if k < i || l.Vers[i][0] != l.Vers[k][0] {
			ids = append(ids, lensid{l.Vers[i], l.Vers[k]})
		}
		i = k
	}
	return ids
}

// ---- running against the real code

func newRT() *thema.Runtime { return thema.NewRuntime(cuecontext.New()) }

func compile(rt *thema.Runtime, src string) cue.Value {
	return rt.Context().CompileString(src, cue.Filename("lin.cue"))
}

func (l *Lin) bind(c *Case, rt *thema.Runtime, opts ...thema.BindOption) thema.Lineage {
	src := l.render()
	c.Logf("lineage:\n%s", src)
	lin, err := thema.BindLineage(compile(rt, src), rt, append(opts, l.Opts...)...)
	if err != nil {
		c.Fail("BindLineage refused a valid lineage: %v", err)
	}
	if lin == nil {
		c.Fail("BindLineage returned neither a lineage nor an error")
	}
	return lin
}

func val(rt *thema.Runtime, d any) cue.Value {
	return rt.Context().CompileString(cueLit(d), cue.Filename("data.json"))
}

func schemaAt(c *Case, lin thema.Lineage, v Ver) thema.Schema {
	s, err := lin.Schema(v)
	if err != nil || s == nil {
		c.Fail("Schema(%v) = %v, %v", v, s, err)
	}
	return s
}

func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("unmarshalable: %v", err)
	}
	var r any
	if err := json.Unmarshal(b, &r); err != nil {
		return fmt.Sprintf("bad json: %v", err)
	}
	return r
}

func sameData(got cue.Value, want any) bool { return reflect.DeepEqual(norm(got), norm(want)) }

func show(v cue.Value) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%v (%v)", v, err)
	}
	return string(b)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
