package main

import (
	stderrors "errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	"cuelang.org/go/cue"
	cerrors "cuelang.org/go/cue/errors"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/internal/zzverif/hlib"
	tload "github.com/grafana/thema/load"
)

func main() {
	hlib.Main([]*hlib.Prop{
		{ID: "P01", Quick: 400, Run: p01, Rule: "random lineage (defaults, joinSchema, nested types), random data valid or mutated, Validate compared with a Go model of the schema; non-trivial: every case"},
		{ID: "P02", Quick: 400, Run: p02, Rule: "random rejected data (missing, excess, conflicting, non-concrete, erroneous, odd names), error class and positions compared with CUE's own errors; non-trivial: at least one rejection"},
		{ID: "P03", Quick: 40000, Run: p03, Rule: "random version triples and random strings"},
		{ID: "P04", Quick: 500, Run: p04, Rule: "random version sequences, valid or with one defect, bound; non-trivial: every case"},
		{ID: "P05", Quick: 600, Run: p05, Rule: "random lineages with zero or one compatibility defect"},
		{ID: "P06", Quick: 600, Run: p06, Rule: "random lineages with zero or one structural defect, opened in several ways"},
		{ID: "P07", Quick: 250, Run: p07, Rule: "random lineage shapes; every lookup and navigation compared with the version list"},
		{ID: "P08", Quick: 300, Run: p08, Rule: "random lineage and data; ValidateAny compared with the model"},
		{ID: "P09", Quick: 150, Run: p09, Rule: "random lineages with correct or defective CUE or Go lenses, all kinds of from/to"},
		{ID: "P10", Quick: 400, Run: p10, Rule: "random lineages with recording Go lenses, with zero or one misbehaving lens"},
		{ID: "P11", Quick: 600, Run: p11, Rule: "random lineages with complete Go lens sets, or with one defect"},
		{ID: "P12", Quick: 500, Run: p12, Rule: "random lineages with CUE lens lists, ordered or permuted"},
		{ID: "P13", Quick: 150, Run: p13, Rule: "random lineage, mux schema and input; untyped mux compared with the model"},
		{ID: "P14", Quick: 150, Run: p14, Rule: "random lineage, mux schema and input; typed, byte and value mux compared with the untyped mux"},
		{ID: "P15", Quick: 250, Run: p15, Rule: "random pairs of lineages: equal, extended, shortened, or changed at one schema"},
		{ID: "P16", Quick: 150, Run: p16, Rule: "random lineages, types and instances"},
		{ID: "P17", Quick: 14, Run: p17, Timeout: 100 * time.Second, Rule: "every operation with the lock held elsewhere (must wait), and the lock state after it"},
		{ID: "P18", Quick: 120, Run: p18, Rule: "random sequences of operations; all objects obtained so far are compared with their snapshots"},
		{ID: "P19", Quick: 150, Run: p19, Rule: "random lineages with CUE or Go lenses; one step up and down from every schema"},
		{ID: "P20", Quick: 127, Run: p20, Rule: "all sequences of version numbers up to 7 schemas (then random longer ones), all pairs from/to"},
		{ID: "P22", Quick: 900, Run: p22, Rule: "random schemas with defaults, random data, hydrated and dehydrated"},
		{ID: "P23", Quick: 150, Run: p23, Rule: "random lineages with lacunas in the lenses, random from/to"},
	})
}

// ---------------------------------------------------------------- P01
func p01(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 6)), genOpts{defaults: true, join: true})
	lin := l.bind(c, rt)
	for n := 0; n < 12; n++ {
		i := c.Intn(len(l.Vers))
		d := l.gen(c, c.Intn(len(l.Vers)))
		if c.Intn(2) == 0 {
			d = l.gen(c, i)
		}
		for m := c.Intn(3); m > 0; m-- {
			d = l.mutate(c, i, d)
		}
		v := val(rt, d)
		sch := schemaAt(c, lin, l.Vers[i])
		inst, err := sch.Validate(v)
		want := l.ok(i, d)
		c.Logf("Validate(%s) at %v: %v", cueLit(d), l.Vers[i], err)
		c.Key("%v%s", want, cueLit(d))
		c.Check((inst != nil) == (err == nil), "Validate returned instance %v with error %v", inst != nil, err)
		c.Check((err == nil) == want, "schema %v accepts %s: %v, should be %v", l.Vers[i], cueLit(d), err == nil, want)
		if err == nil {
			c.Check(inst.Schema() == sch, "the instance is bound to another schema")
			c.Check(inst.Underlying() == v, "the instance does not wrap the data given to Validate")
		}
	}
	// non-concrete and erroneous data
	i := c.Intn(len(l.Vers))
	d := l.gen(c, i)
	d["trace"] = "@@"
	for _, expr := range []string{"string", `"a" | "b"`, "_", `=~"x"`, "_|_", "nosuch"} {
		src := strings.Replace(cueLit(d), `"@@"`, expr, 1)
		inst, err := schemaAt(c, lin, l.Vers[i]).Validate(rt.Context().CompileString(src))
		c.Logf("Validate(%s) at %v: %v", src, l.Vers[i], err)
		c.Check(err != nil && inst == nil, "schema %v accepts non-concrete data %s", l.Vers[i], src)
	}
	d["trace"] = "x"
	one := cueLit(d)
	d["trace"] = "y"
	two := cueLit(d)
	for _, src := range []string{"_", "{}", "{...}", one + " | " + two, one + " | " + two + " | string", "(" + one + " | " + two + ") & {...}", "string", "null", "[]", "string | *" + `"z"`, one + " | _"} {
		inst, err := schemaAt(c, lin, l.Vers[i]).Validate(rt.Context().CompileString(src))
		c.Logf("Validate(%s) at %v: %v", src, l.Vers[i], err)
		c.Check(err != nil && inst == nil, "schema %v accepts non-concrete data %s", l.Vers[i], src)
	}
	inst, err := schemaAt(c, lin, l.Vers[i]).Validate(cue.Value{})
	c.Check(err != nil && inst == nil, "schema %v accepts no data at all", l.Vers[i])
}

// ---------------------------------------------------------------- P02
func p02(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 4)), genOpts{defaults: true})
	// names that trimThemaPath could trip over
	if c.Intn(2) == 0 {
		nm := pick(c, "schemas", "schema", "_#schema")
		if nm != "_#schema" {
			for i := range l.Sch {
				l.Sch[i] = append(append([]Fld{}, l.Sch[i]...), Fld{nm, true, "sub"})
			}
		}
	}
	lin := l.bind(c, rt)
	for n := 0; n < 10; n++ {
		i := c.Intn(len(l.Vers))
		sch := schemaAt(c, lin, l.Vers[i])
		var v cue.Value
		var src string
		if c.Intn(4) == 0 {
			src = pick(c, `1`, `"x"`, `[]`, `null`, `_|_`, `nosuch`, `{trace: nosuch}`, `[`, `{trace: string}`, `{schemas: 1}`, `{schemas: schemas: 1}`, `{schemas: {schemas: {x: "a"}}}`, `{trace: {schemas: [1,2]}}`, `_`, `{}`, `true & false`, `{trace: 1 & "x"}`, `{trace: 1/0}`)
			v = rt.Context().CompileString(src, cue.Filename(pick(c, "data.json", "in.cue", "")))
			if c.Intn(5) == 0 {
				v = v.LookupPath(cue.ParsePath("no.such.path"))
				src += " at a path that does not exist"
			}
		} else {
			d := l.gen(c, c.Intn(len(l.Vers)))
			for m := 1 + c.Intn(3); m > 0; m-- {
				d = l.mutate(c, i, d)
			}
			src = cueLit(d)
			v = val(rt, d)
		}
		c.Logf("Validate(%s) at %v", src, l.Vers[i])
		inst, err := sch.Validate(v)
		if err == nil {
			continue
		}
		c.Key("%s", src)
		c.Check(inst == nil, "rejected, but an instance was returned")
		c.Check(stderrors.Is(err, terrors.ErrInvalidData), "error does not match ErrInvalidData: %T %v", err, err)
		c.Check(errors.Is(err, terrors.ErrInvalidData), "error does not match ErrInvalidData: %T %v", err, err)
		checkPositions(c, sch, v, err)
	}
}

// checkPositions compares the positions printed for the schema and the data side
// with those of the CUE errors.
func checkPositions(c *Case, sch thema.Schema, v cue.Value, err error) {
	def := sch.Underlying().LookupPath(cue.MakePath(cue.Hid("_#schema", "github.com/grafana/thema")))
	cerr := def.Unify(v).Validate(cue.Concrete(true))
	var wantS, wantD []string
	n := 0
	for _, ce := range cerrors.Errors(cerr) {
		msg, args := ce.Msg()
		strs := true
		for _, a := range args {
			switch a.(type) {
			case string, cue.Kind:
			default:
				strs = false
			}
		}
		known := strs && (len(args) == 1 && (strings.Contains(msg, "incomplete") || strings.Contains(msg, "not allowed")) || len(args) == 2 || len(args) == 4)
		if !known {
			// other errors are not part of the text
			continue
		}
		n++
		for _, p := range ce.InputPositions() {
			if strings.HasSuffix(p.Filename(), ".cue") {
				wantS = append(wantS, p.String())
			} else {
				wantD = append(wantD, p.String())
			}
		}
	}
	var gotS, gotD []string
	side := 0
	txt := err.Error()
	for _, ln := range strings.Split(txt, "\n") {
		switch {
		case strings.HasPrefix(ln, "\t\t"):
			if side == 1 {
				gotS = append(gotS, ln[2:])
			} else {
				gotD = append(gotD, ln[2:])
			}
		case strings.HasPrefix(ln, "\tschema "):
			side = 1
		case strings.HasPrefix(ln, "\tbut "):
			side = 2
		}
	}
	c.Check(fmt.Sprint(wantS) == fmt.Sprint(gotS) && fmt.Sprint(wantD) == fmt.Sprint(gotD),
		"positions: schema %v, data %v; CUE reported schema %v, data %v (%d errors)\n%s", gotS, gotD, wantS, wantD, n, txt)
}

// ---------------------------------------------------------------- P03
func p03(c *Case) {
	num := func() uint {
		return pick(c, uint(c.Intn(3)), uint(c.Intn(12)), 9, 10, 11, 99, 100, math.MaxUint32-1, math.MaxUint32, uint(c.Uint32()), uint(c.Uint64()), math.MaxUint64)
	}
	a, b, d := Ver{num(), num()}, Ver{num(), num()}, Ver{num(), num()}
	if c.Intn(3) == 0 {
		b[0] = a[0]
	}
	if c.Intn(5) == 0 {
		b = a
	}
	c.Logf("a=%v b=%v d=%v", a, b, d)
	c.Key("%v%v%v", a, b, d)
	less := func(x, y Ver) bool { return x[0] < y[0] || (x[0] == y[0] && x[1] < y[1]) }
	c.Check(a.Less(b) == less(a, b), "%v.Less(%v) = %v", a, b, a.Less(b))
	c.Check(b.Less(a) == less(b, a), "%v.Less(%v) = %v", b, a, b.Less(a))
	c.Check(thema.SV(a[0], a[1]) == a, "SV(%d, %d) = %v", a[0], a[1], thema.SV(a[0], a[1]))
	_ = d
	txt := a.String()
	c.Check(txt == strconv.FormatUint(uint64(a[0]), 10)+"."+strconv.FormatUint(uint64(a[1]), 10), "String() = %q for %d, %d", txt, a[0], a[1])
	p, err := thema.ParseSyntacticVersion(txt)
	if a[0] <= math.MaxUint32 && a[1] <= math.MaxUint32 {
		c.Check(err == nil && p == a, "parsing %q: %v, %v", txt, p, err)
	} else {
		c.Check(stderrors.Is(err, terrors.ErrMalformedSyntacticVersion) && p == Ver{}, "parsing %q: %v, %v", txt, p, err)
	}
	// other strings
	part := func() string {
		return pick(c, "", "0", "1", "00", "007", "10", "+1", "-1", " 1", "1 ", "1_0", "0x1", "a", "4294967295", "4294967296", "18446744073709551616", "１", "1e1", "v1", strconv.Itoa(c.Intn(300)))
	}
	s := part()
	for n := pick(c, 1, 1, 1, 1, 0, 2, 3); n > 0; n-- {
		s += pick(c, ".", ".", ".", ".", ".", "..", ",", ":") + part()
	}
	c.Logf("parse %q", s)
	var want Ver
	ok := false
	if i := strings.IndexByte(s, '.'); i >= 0 && strings.Count(s, ".") == 1 {
		x, okx := num32(s[:i])
		y, oky := num32(s[i+1:])
		if okx && oky {
			ok, want = true, Ver{x, y}
		}
	}
	p, err = thema.ParseSyntacticVersion(s)
	c.Check(p == want, "parsing %q gives %v, not %v (%v)", s, p, want, err)
	c.Check((err == nil) == ok, "parsing %q: %v", s, err)
	c.Check(ok || stderrors.Is(err, terrors.ErrMalformedSyntacticVersion), "parsing %q: %v does not match ErrMalformedSyntacticVersion", s, err)
}

func num32(s string) (uint, bool) {
	if s == "" {
		return 0, false
	}
	var n uint64
	for _, r := range []byte(s) {
		if r < '0' || r > '9' {
			return 0, false
		}
		n = n*10 + uint64(r-'0')
		if n > math.MaxUint32 {
			return 0, false
		}
	}
	return uint(n), true
}

// ---------------------------------------------------------------- P04
func seqOK(vs []Ver) bool {
	for i, v := range vs {
		if i == 0 {
			if v != (Ver{}) {
				return false
			}
			continue
		}
		p := vs[i-1]
		if v != (Ver{p[0], p[1] + 1}) && v != (Ver{p[0] + 1, 0}) {
			return false
		}
	}
	return len(vs) > 0
}

func p04(c *Case) {
	rt := newRT()
	v := versOf(shape(c, 14))
	k := c.Intn(len(v))
	what := c.Intn(10)
	switch what {
	case 0: // duplicate
		v = append(v[:k+1:k+1], v[k:]...)
	case 1: // gap
		if k > 0 {
			v = append(v[:k:k], v[k+1:]...)
		}
	case 2: // swap
		j := c.Intn(len(v))
		v[k], v[j] = v[j], v[k]
	case 3:
		v[k][c.Intn(2)] += uint(c.Intn(3))
	case 4:
		v[k][c.Intn(2)] = pick(c, uint(0), 1, 1<<33, math.MaxUint64)
	case 5:
		v = v[k:]
	}
	l := genLin(c, v, genOpts{plain: true})
	src := l.render()
	nonconc := false
	if what == 6 {
		// a version that is not concrete
		bad := pick(c, "[1, uint64]", "[uint64, 1]", "[>=1, 0]", fmt.Sprintf("[%d, uint64]", v[k][0]+1), fmt.Sprintf("[uint64, %d]", v[k][1]+1))
		src = strings.Replace(src, "version: "+vlist(v[k]), "version: "+bad, 1)
		nonconc = true
	}
	c.Logf("lineage:\n%s", src)
	c.Key("%v%v", v, nonconc)
	lin, err := thema.BindLineage(compile(rt, src), rt, thema.SkipBuggyChecks())
	c.Logf("BindLineage: %v", err)
	if nonconc {
		c.Check(lin == nil && err != nil, "a lineage with a non-concrete version was bound")
		c.Check(errors.Is(err, terrors.ErrInvalidLineage), "refused with %v", err)
		return
	}
	if !seqOK(v) {
		c.Check(lin == nil && err != nil, "a lineage with versions %v was bound", v)
		c.Check(errors.Is(err, terrors.ErrInvalidSchemasOrder), "versions %v refused with %v", v, err)
		return
	}
	c.Check(err == nil && lin != nil, "a lineage with versions %v was refused: %v", v, err)
	all := lin.All()
	c.Check(len(all) == len(v), "%d schemas, not %d", len(all), len(v))
	for i, s := range all {
		c.Check(s.Version() == v[i], "schema %d has version %v, not %v", i, s.Version(), v[i])
		c.Check(s.Lineage() == lin, "schema %v reports another lineage", v[i])
		// the schema is the one declared for that version
		for j := range v {
			_, err := s.Validate(val(rt, l.gen(c, j)))
			if i == j {
				c.Check(err == nil, "schema %v rejects an instance of itself: %v", v[i], err)
			}
		}
		fs := l.Sch[i]
		for _, f := range fs {
			c.Check(s.Underlying().LookupPath(cue.ParsePath("schema")).LookupPath(cue.MakePath(selOf(f))).Exists(), "schema %v lacks field %s", v[i], f.Name)
		}
		var n int
		it, _ := s.Underlying().LookupPath(cue.ParsePath("schema")).Fields(cue.Optional(true))
		for it.Next() {
			n++
		}
		c.Check(n == len(fs), "schema %v has %d fields, not %d", v[i], n, len(fs))
	}
}

func selOf(f Fld) cue.Selector {
	if f.Opt {
		return cue.Str(f.Name).Optional()
	}
	return cue.Str(f.Name)
}

// ---------------------------------------------------------------- P05
func p05(c *Case) {
	rt := newRT()
	v := versOf(shape(c, 8))
	l := genLin(c, v, genOpts{plain: true})
	bad := -1
	why := ""
	if len(v) > 1 && c.Intn(3) > 0 {
		bad = 1 + c.Intn(len(v)-1)
		if v[bad][1] == 0 {
			// the new major changes nothing that breaks; what follows in that major is adapted
			why = "major version without a breaking change"
			base := l.Sch[bad-1]
			old := l.Sch[bad]
			l.Sch[bad] = append([]Fld{}, base...)
			if c.Intn(2) == 0 {
				l.Sch[bad] = append(l.Sch[bad], Fld{"extra", true, "string"})
			}
			for j := bad + 1; j < len(v) && v[j][0] == v[bad][0]; j++ {
				l.Sch[j] = append(append([]Fld{}, l.Sch[bad]...), l.Sch[j][len(old):]...)
			}
			// the next major must still break
		} else {
			why = "minor version with a breaking change"
			fs := append([]Fld{}, l.Sch[bad]...)
			k := c.Intn(4)
			// what the preceding minor version added is changed
			var added []Fld
			if v[bad][1] > 1 {
				for _, f := range l.Sch[bad-1] {
					isnew := true
					for _, g := range l.Sch[bad-2] {
						isnew = isnew && f.Name != g.Name
					}
					if isnew && f.Opt && (f.T == "string" || f.T == "int" || f.T == "bool") {
						added = append(added, f)
					}
				}
			}
			if len(added) > 0 && c.Intn(2) == 0 {
				k = 4
			}
			switch k {
			case 4:
				f := added[c.Intn(len(added))]
				var o []Fld
				for _, g := range fs {
					if g.Name == f.Name {
						if c.Intn(2) == 0 {
							continue
						}
						g.T = map[string]string{"string": "int", "int": "bool", "bool": "string"}[g.T]
					}
					o = append(o, g)
				}
				fs = o
			case 0: // field removed
				fs = append(fs[:1], fs[2:]...)
			case 1: // new required field
				fs = append(fs, Fld{"req", false, "string"})
			case 2: // type changed
				fs[1].T = map[string]string{"string": "int", "int": "bool", "bool": "string"}[fs[1].T]
			case 3: // narrowed
				fs[1].T = map[string]string{"string": "enum", "int": "small", "bool": "int"}[fs[1].T]
			}
			l.Sch[bad] = fs
			for j := bad + 1; j < len(v) && v[j][0] == v[bad][0]; j++ {
				l.Sch[j] = append(append([]Fld{}, fs...), Fld{fmt.Sprintf("later%d", j), true, "int"})
			}
		}
	}
	skip := c.Intn(4) == 0
	var opts []thema.BindOption
	if skip {
		opts = append(opts, thema.SkipBuggyChecks())
	}
	src := l.render()
	c.Logf("lineage:\n%s\ndefect at %d: %s, checks skipped: %v", src, bad, why, skip)
	c.Key("%v %d %s", v, bad, why)
	lin, err := thema.BindLineage(compile(rt, src), rt, opts...)
	c.Logf("BindLineage: %v", err)
	if bad < 0 || skip {
		c.Check(err == nil && lin != nil, "a correct lineage was refused: %v", err)
		return
	}
	c.Check(err != nil && lin == nil, "a lineage was bound in spite of a %s at %v", why, v[bad])
	c.Check(errors.Is(err, terrors.ErrInvalidLineage), "refused with %v", err)
}

// ---------------------------------------------------------------- P06
func p06(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 4)), genOpts{plain: true, lenses: true})
	src := l.render()
	var want error
	switch w := c.Intn(10); w {
	case 0:
		src = strings.Replace(src, "name: ", "nam: ", 1)
		want = terrors.ErrValueNotALineage
	case 1:
		src = strings.Replace(src, "schemas: [", "schemes: [", 1)
		want = terrors.ErrValueNotALineage
	case 2:
		src = strings.Replace(src, fmt.Sprintf("name: %q", l.Name), "name: "+pick(c, "string", "_", `"a" | "b"`), 1)
		want = terrors.ErrInvalidLineage
	case 3:
		src = fmt.Sprintf("name: %q\nschemas: %s\n", l.Name, pick(c, "[...]", "_", "[...{version: [0, 0]}]"))
		want = terrors.ErrInvalidLineage
	case 4:
		src += pick(c, "bad: 1 & 2\n", "conf: string\nconf: 3\n", "joinSchema: {a: 1 & 2}\n")
		want = terrors.ErrInvalidLineage
	case 5:
		src += pick(c, "nosuchfield: 3\n", "version: [0, 0]\n", "schema: {}\n")
		want = nil // see below
		if strings.Contains(src, "nosuchfield") || true {
			want = errAny
		}
	case 6:
		src = strings.Replace(src, "version: [0, 0]", "version: "+pick(c, `["0", 0]`, "[0]", "3", "[0, 0, 0]", "[-1, 0]"), 1)
		want = terrors.ErrInvalidLineage
	case 7:
		src = strings.Replace(src, fmt.Sprintf("name: %q", l.Name), "name: "+pick(c, "3", "[]", "true"), 1)
		want = terrors.ErrInvalidLineage
	}
	v := compile(rt, src)
	how := c.Intn(10)
	if how >= 8 && c.Intn(3) == 0 {
		how = 0 // loading a package takes long
	}
	refused := false // with one of the errors of lineages
	switch how {
	case 1: // nested at a path
		v = rt.Context().CompileString("a: b: {\n" + src + "\n}").LookupPath(cue.ParsePath("a.b"))
	case 2: // does not exist
		v = pick(c, v.LookupPath(cue.ParsePath("no.such")), cue.Value{}, rt.Context().CompileString("{}").LookupPath(cue.ParsePath("x")))
		want = terrors.ErrValueNotExist
	case 3: // unified already
		if want == nil {
			v = rt.Underlying().LookupPath(cue.ParsePath("#Lineage")).Unify(v)
		}
	case 4: // several conjuncts
		v = rt.Context().CompileString("a: {\n" + src + "\n}\nb: {...}\nlin: a & b" + pick(c, "", " & {_}")).LookupPath(cue.ParsePath("lin"))
	case 5: // a definition that has but the name in common with thema's
		v = rt.Context().CompileString(pick(c, "#Lineage: {name: string, ...}", "#Lineage: {name: _, schemas: [...], ...}", "#Lineage: {...}") + "\nlin: #Lineage & {\n" + src + "\n}" + pick(c, "", " & {_}")).LookupPath(cue.ParsePath("lin"))
		refused = want != nil && want != errAny
		if want == nil {
			want = errAny // thema's definitions may not fit into it
		}
	case 6: // the same, and nothing in it
		src = pick(c, "", "schemas: []", "schemas: {a: 1}", "schemas: 3", "schemas: [{}]", "schemas: [3]", "schemas: [{version: 0}]", "schemas: [{version: [0]}]", "schemas: [{version: [0, 0], schema: 3}]")
		src = "name: \"foo\"\n" + src
		v = rt.Context().CompileString("#Lineage: {name: string, schemas: _, ...}\nlin: #Lineage & {\n" + src + "\n}").LookupPath(cue.ParsePath("lin"))
		refused = true
		want = terrors.ErrInvalidLineage
	case 8, 9: // unified with thema's in CUE
		expr := pick(c, "thema.#Lineage & {\n"+src+"\n}", "{\n"+src+"\n} & thema.#Lineage", "thema.#Lineage & thema.#Lineage & {\n"+src+"\n}", "thema.#Lineage & {name: _, ...} & {\n"+src+"\n}", "thema.#Lineage & {name: _, ...} & {\n"+src+"\n} & {_}", "thema.#Lineage & {name: _, ...} & {lenses: _, ...} & {\n"+src+"\n}")
		if nm := fmt.Sprintf("name: %q\n", l.Name); want == nil && strings.Contains(src, nm) && c.Intn(2) == 0 {
			// the name and the rest in different values
			rest := strings.Replace(src, nm, "", 1)
			parts := []string{"{" + strings.TrimSpace(nm) + ", ...}", "{\n" + rest + "\n...}"}
			if c.Intn(2) == 0 {
				parts[0], parts[1] = parts[1], parts[0]
			}
			more := pick(c, []string{}, []string{"{lenses: _, ...}"}, []string{"{lenses: _, ...}", "{schemas: _, ...}"})
			for _, m := range more {
				k := c.Intn(len(parts) + 1)
				parts = append(parts[:k], append([]string{m}, parts[k:]...)...)
			}
			k := c.Intn(len(parts) + 1)
			parts = append(parts[:k], append([]string{"thema.#Lineage"}, parts[k:]...)...)
			expr = strings.Join(parts, " & ")
		}
		inst, err := tload.InstanceWithThema(fstest.MapFS{
			"cue.mod/module.cue": {Data: []byte("module: \"example.com/x\"\n")},
			"x.cue":              {Data: []byte("package x\n\nimport \"github.com/grafana/thema\"\n\nlin: " + expr + "\n")},
		}, ".")
		if err != nil {
			c.Fail("loading: %v", err)
		}
		v = rt.Context().BuildInstance(inst).LookupPath(cue.ParsePath("lin"))
		refused = want != nil && want != errAny
	}
	var opts []thema.BindOption
	with := ""
	if c.Intn(3) == 0 {
		opts, with = append(opts, thema.SkipBuggyChecks()), "SkipBuggyChecks"
	}
	if want != nil && want != errAny && c.Intn(3) == 0 {
		// refused before the lenses are looked at
		opts, with = append(opts, thema.ImperativeLenses(thema.ImperativeLens{From: thema.SV(0, 1), To: thema.SV(0, 0), Mapper: func(i *thema.Instance, s thema.Schema) (*thema.Instance, error) { return i, nil }})), with+" ImperativeLenses"
	}
	c.Logf("lineage (given as %d, with %s):\n%s\nexpecting %v", how, with, src, want)
	c.Key("%d %v %v", how, want, l.Vers)
	var lin thema.Lineage
	var err error
	if r, did := hlib.Panics(func() { lin, err = thema.BindLineage(v, rt, opts...) }); did {
		c.Fail("BindLineage panicked: %v", r)
	}
	c.Logf("BindLineage: %v", err)
	c.Check((lin == nil) == (err != nil), "lineage %v with error %v", lin != nil, err)
	if want == nil {
		c.Check(err == nil, "a correct lineage was refused: %v", err)
		c.Check(lin.Name() == l.Name, "name %q, not %q", lin.Name(), l.Name)
		u := lin.Underlying()
		c.Check(u.LookupPath(cue.MakePath(cue.Hid("_counts", "github.com/grafana/thema"))).Exists(), "the lineage's value is not unified with #Lineage")
		nm, _ := u.LookupPath(cue.ParsePath("name")).String()
		c.Check(nm == l.Name, "the lineage's value is another one")
		c.Check(lin.Runtime() == rt, "another runtime")
		return
	}
	if want == errAny {
		if err == nil {
			c.Check(v.Validate(cue.Concrete(false)) == nil, "an invalid value was bound")
			c.Check(lin.Underlying().LookupPath(cue.MakePath(cue.Hid("_counts", "github.com/grafana/thema"))).Exists(), "the lineage's value is not unified with #Lineage")
		}
		return
	}
	c.Check(err != nil, "bound, expected %v", want)
	if refused {
		c.Check(errors.Is(err, terrors.ErrInvalidLineage) || errors.Is(err, terrors.ErrValueNotALineage), "refused with %v", err)
		return
	}
	c.Check(errors.Is(err, want), "refused with %v, expected %v", err, want)
}

var errAny = stderrors.New("any")

// ---------------------------------------------------------------- P07
func p07(c *Case) {
	rt := newRT()
	vers := versOf(shape(c, 14))
	l := genLin(c, vers, genOpts{plain: true})
	c.Key("%v", vers)
	lin := l.bind(c, rt, thema.SkipBuggyChecks())
	all := lin.All()
	c.Check(len(all) == len(vers), "All has %d schemas, not %d", len(all), len(vers))
	for i, s := range all {
		c.Check(s.Version() == vers[i], "All()[%d] has version %v, not %v", i, s.Version(), vers[i])
	}
	// All returns a fresh list
	all[0] = nil
	all = lin.All()
	c.Check(all[0] != nil, "All returned the same list again")
	c.Check(lin.First() == all[0], "First is not the first schema")
	c.Check(lin.Latest() == all[len(all)-1], "Latest is not the last schema")
	c.Check(thema.LatestVersion(lin) == vers[len(vers)-1], "LatestVersion = %v", thema.LatestVersion(lin))
	last := map[uint]int{}
	for i, v := range vers {
		last[v[0]] = i
	}
	var probes []Ver
	for a := uint(0); a < vers[len(vers)-1][0]+3; a++ {
		for b := uint(0); b < 16; b++ {
			probes = append(probes, Ver{a, b})
		}
	}
	m := uint(math.MaxUint64)
	probes = append(probes, Ver{m, m}, Ver{0, m}, Ver{m, 0}, Ver{1 << 32, 0}, Ver{0, 1 << 32}, Ver{1 << 63, 1 << 63})
	for _, v := range probes {
		i := l.idx(v)
		s, err := lin.Schema(v)
		if i < 0 {
			c.Check(s == nil && errors.Is(err, terrors.ErrVersionNotExist), "Schema(%v) = %v, %v", v, s, err)
			_, did := hlib.Panics(func() { thema.SchemaP(lin, v) })
			c.Check(did, "SchemaP(%v) did not panic", v)
		} else {
			c.Check(err == nil && s == all[i], "Schema(%v) = %v, %v", v, s, err)
			c.Check(thema.SchemaP(lin, v) == all[i], "SchemaP(%v)", v)
		}
	}
	for i, s := range all {
		su, pr := s.Successor(), s.Predecessor()
		if i+1 < len(all) {
			c.Check(su == all[i+1], "Successor of %v is %v", vers[i], su)
		} else {
			c.Check(su == nil, "Successor of the last schema is %v", su)
		}
		if i > 0 {
			c.Check(pr == all[i-1], "Predecessor of %v is %v", vers[i], pr)
		} else {
			c.Check(pr == nil, "Predecessor of the first schema is %v", pr)
		}
		c.Check(s.LatestInMajor() == all[last[vers[i][0]]], "LatestInMajor of %v is %v", vers[i], s.LatestInMajor().Version())
		c.Check(s.Lineage() == lin, "Lineage of %v", vers[i])
	}
	for a := uint(0); a < vers[len(vers)-1][0]+3; a++ {
		v, err := thema.LatestVersionInSequence(lin, a)
		if i, has := last[a]; has {
			c.Check(err == nil && v == vers[i], "LatestVersionInSequence(%d) = %v, %v", a, v, err)
		} else {
			c.Check(errors.Is(err, terrors.ErrVersionNotExist), "LatestVersionInSequence(%d) = %v, %v", a, v, err)
		}
	}
	_, err := thema.LatestVersionInSequence(lin, m)
	c.Check(errors.Is(err, terrors.ErrVersionNotExist), "LatestVersionInSequence(%d): %v", m, err)
}

// ---------------------------------------------------------------- P08
func p08(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 7)), genOpts{defaults: true, join: true})
	lin := l.bind(c, rt)
	for n := 0; n < 8; n++ {
		i := c.Intn(len(l.Vers))
		d := l.gen(c, i)
		for m := pick(c, 0, 0, 1, 2); m > 0; m-- {
			d = l.mutate(c, i, d)
		}
		want := -1
		for j := range l.Vers {
			if l.ok(j, d) {
				want = j
				break
			}
		}
		v := val(rt, d)
		inst := lin.ValidateAny(v)
		c.Logf("ValidateAny(%s): want %d", cueLit(d), want)
		c.Key("%d %s", want, cueLit(d))
		if want < 0 {
			c.Check(inst == nil, "an instance although no schema accepts the data")
			continue
		}
		c.Check(inst != nil, "no instance, although %v accepts the data", l.Vers[want])
		c.Check(inst.Schema() == lin.All()[want], "instance of %v, expected %v", inst.Schema().Version(), l.Vers[want])
		c.Check(inst.Underlying() == v, "other data")
	}
}
