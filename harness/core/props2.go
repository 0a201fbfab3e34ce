package main

import (
	stderrors "errors"
	"fmt"
	"reflect"
	"strings"

	"cuelang.org/go/cue"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/internal/zzverif/hlib"
)

type call struct {
	id  lensid
	in  *thema.Instance
	to  thema.Schema
	out *thema.Instance
}

// goLenses makes recording Go lenses that do what the model prescribes.
// fault: what the lens with index bad does instead.
func (l *Lin) goLenses(rt *thema.Runtime, rec *[]call, bad int, fault func(in *thema.Instance, to thema.Schema, ok func() *thema.Instance) (*thema.Instance, error)) []thema.ImperativeLens {
	var ls []thema.ImperativeLens
	for k, id := range l.lensIDs() {
		k, id := k, id
		ls = append(ls, thema.ImperativeLens{
			From: id.From, To: id.To,
			Mapper: func(in *thema.Instance, to thema.Schema) (*thema.Instance, error) {
				*rec = append(*rec, call{id: id, in: in, to: to})
				n := len(*rec) - 1
				ok := func() *thema.Instance {
					d := toData(in.Underlying())
					i, j := l.idx(id.From), l.idx(id.To)
					nd, _ := l.step(i, j, d, false)
					out, err := to.Validate(val(rt, nd))
					if err != nil {
						panic(fmt.Sprintf("lens %v: %v", id, err))
					}
					return out
				}
				if k == bad {
					return fault(in, to, ok)
				}
				(*rec)[n].out = ok()
				return (*rec)[n].out, nil
			},
		})
	}
	return ls
}

func toData(v cue.Value) Data {
	m, _ := intify(norm(v)).(Data)
	return m
}

func intify(v any) any {
	switch x := v.(type) {
	case float64:
		return int(x)
	case []any:
		r := []any{}
		for _, e := range x {
			r = append(r, intify(e))
		}
		return r
	case map[string]any:
		r := Data{}
		for k, e := range x {
			r[k] = intify(e)
		}
		return r
	}
	return v
}

func mustValidate(c *Case, s thema.Schema, v cue.Value) *thema.Instance {
	inst, err := s.Validate(v)
	if err != nil || inst == nil {
		c.Fail("schema %v rejects valid data: %v", s.Version(), err)
	}
	return inst
}

// checkInst: inst is a valid instance of schema s with data d.
func checkInst(c *Case, inst *thema.Instance, s thema.Schema, d any) {
	c.Check(inst != nil, "nil instance")
	c.Check(inst.Schema() == s, "instance of schema %v (lineage %v), expected %v", inst.Schema().Version(), inst.Schema().Lineage() == s.Lineage(), s.Version())
	c.Check(sameData(inst.Underlying(), d), "data is %s, expected %s", show(inst.Underlying()), cueLit(d))
}

// ---------------------------------------------------------------- P09
func p09(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 7)), genOpts{defaults: true, lenses: true, lacunas: true, join: true})
	src := l.render()
	var lin thema.Lineage
	goLens := c.Intn(3) == 0 && len(l.Vers) > 1
	ids := l.lensIDs()
	badID := lensid{}
	var want error
	fault := ""
	if goLens {
		l.Lenses = false
		var rec []call
		lin = l.bind(c, rt, thema.ImperativeLenses(l.goLenses(rt, &rec, -1, nil)...))
	} else {
		if len(ids) > 0 && c.Intn(2) == 0 {
			k := c.Intn(len(ids))
			badID = ids[k]
			good := l.renderLens(badID)
			bad := good
			switch c.Intn(3) {
			case 0:
				fault = "non-concrete result"
				bad = strings.Replace(good, `trace: "`, `trace: string // "`, 1)
				want = terrors.ErrLensIncomplete
			case 1:
				fault = "result the schema rejects (type)"
				bad = strings.Replace(good, `trace: "`, `trace: 3 // "`, 1)
			case 2:
				fault = "result with an unknown field"
				bad = strings.Replace(good, `trace: "`, "nosuch: 3\n  trace: \"", 1)
			}
			src = strings.Replace(src, good, bad, 1)
		}
		c.Logf("lineage:\n%s\nfault: %s in %v", src, fault, badID)
		var err error
		lin, err = thema.BindLineage(compile(rt, src), rt)
		if err != nil {
			if fault != "" {
				c.Skip()
			}
			c.Fail("BindLineage refused a valid lineage: %v", err)
		}
	}
	all := lin.All()
	for n := 0; n < 4; n++ {
		i, j := c.Intn(len(all)), c.Intn(len(all))
		d := l.gen(c, i)
		inst := mustValidate(c, all[i], val(rt, d))
		c.Logf("%s: %v -> %v", cueLit(d), l.Vers[i], l.Vers[j])
		c.Key("%v %d %d %s %s", l.Vers, i, j, fault, badID)
		hit := false
		for _, id := range l.lensPath(i, j) {
			hit = hit || fault != "" && id == badID
		}
		ti, lac, err := inst.Translate(l.Vers[j])
		c.Logf("Translate: %v", err)
		c.Check((ti == nil) == (err != nil), "instance %v with error %v", ti != nil, err)
		if err != nil {
			c.Check(errors.Is(err, terrors.ErrInvalidLens), "error does not match ErrInvalidLens: %v", err)
			c.Check(hit, "translation through correct lenses failed: %v", err)
			if want != nil {
				// a later step may reject the non-concrete value in another way
				if ids := l.lensPath(i, j); ids[len(ids)-1] == badID && (j < i || l.Vers[j] == badID.To) {
					c.Check(errors.Is(err, want), "%s: error is %v", fault, err)
				}
			}
			continue
		}
		c.Check(!hit || j != l.idx(badID.To), "a lens with a %s was accepted: %s", fault, show(ti.Underlying()))
		c.Check(ti.Schema() == all[j], "instance of %v, expected %v", ti.Schema().Version(), l.Vers[j])
		_, verr := all[j].Validate(ti.Underlying())
		c.Check(verr == nil, "the target schema rejects the translation's result: %v", verr)
		if !goLens {
			c.Check(lac != nil, "no lacunas object")
		}
		if !hit {
			wd, _ := l.translate(i, j, d, !goLens)
			checkInst(c, ti, all[j], wd)
		}
	}
	// versions that do not exist
	inst := mustValidate(c, all[0], val(rt, l.gen(c, 0)))
	for _, v := range []Ver{{l.Vers[len(all)-1][0] + 1, 0}, {l.Vers[len(all)-1][0], l.Vers[len(all)-1][1] + 1}, {0, 99}, {1 << 40, 3}} {
		var ti *thema.Instance
		var err error
		_, did := hlib.Panics(func() { ti, _, err = inst.Translate(v) })
		c.Check(did || ti == nil && err != nil, "translation to version %v, which does not exist, gave an instance", v)
	}
	// all error kinds
	errorKinds(c, rt)
}

// errorKinds checks the classes of errors on lenses that are known to fail in a particular way.
func errorKinds(c *Case, rt *thema.Runtime) {
	src := `name: "k"
schemas: [{version: [0, 0], schema: {a: string}}, {version: [1, 0], schema: {b: int & <10}}]
lenses: [{from: [1, 0], to: [0, 0], input: _, result: {a: %s}}, {from: [0, 0], to: [1, 0], input: _, result: {b: %s}}]
`
	type k struct {
		a, b     string
		from, to int
		want     []error
	}
	ks := []k{
		{"string", "1", 1, 0, []error{terrors.ErrLensIncomplete}},
		{`"x"`, "int", 0, 1, []error{terrors.ErrLensIncomplete}},
		{`"x"`, "1", 0, 1, nil},
		{`"x"`, "1", 1, 0, nil},
		{`"x" | "y"`, "1", 1, 0, []error{terrors.ErrLensIncomplete}},
		{`"\(input.b)", zz: 3`, "1", 1, 0, []error{}},
		{`3`, "1", 1, 0, []error{}},
		{`"x"`, "11", 0, 1, []error{}},
		{`"x"`, "input.nosuch", 0, 1, []error{}},
	}
	x := ks[c.Intn(len(ks))]
	s := fmt.Sprintf(src, x.a, x.b)
	lin, err := thema.BindLineage(compile(rt, s), rt)
	if err != nil {
		return
	}
	c.Logf("%s", s)
	data := []string{`{"a": "q"}`, `{"b": 2}`}[x.from]
	inst := mustValidate(c, lin.All()[x.from], rt.Context().CompileString(data))
	ti, lac, err := inst.Translate(lin.All()[x.to].Version())
	c.Logf("%d -> %d: %v", x.from, x.to, err)
	if x.want == nil {
		c.Check(err == nil && ti != nil && lac != nil, "translation failed: %v", err)
		return
	}
	c.Check(err != nil && ti == nil, "translation with a bad lens succeeded: %v", ti)
	c.Check(errors.Is(err, terrors.ErrInvalidLens), "error does not match ErrInvalidLens: %v", err)
	for _, w := range x.want {
		c.Check(errors.Is(err, w), "error is %v, expected %v", err, w)
	}
}

// ---------------------------------------------------------------- P10
func p10(c *Case) {
	rt := newRT()
	sh := shape(c, 9)
	if len(sh) == 1 && sh[0] == 1 {
		sh = []int{2, 1}
	}
	l := genLin(c, versOf(sh), genOpts{defaults: true})
	other := genLin(c, l.Vers, genOpts{})
	other.Sch, other.Name = l.Sch, l.Name
	olin, err := thema.BindLineage(compile(rt, other.render()), rt, thema.SkipBuggyChecks())
	if err != nil {
		c.Fail("BindLineage: %v", err)
	}
	ids := l.lensIDs()
	bad := -1
	kind := ""
	if c.Intn(2) == 0 {
		bad = c.Intn(len(ids))
		kind = pick(c, "error", "nil", "wrong version", "other lineage", "error and instance", "zero")
	}
	lensErr := stderrors.New("lens failed")
	var rec []call
	var lin thema.Lineage
	fault := func(in *thema.Instance, to thema.Schema, ok func() *thema.Instance) (*thema.Instance, error) {
		switch kind {
		case "error":
			return nil, lensErr
		case "error and instance":
			return ok(), lensErr
		case "nil":
			return nil, nil
		case "wrong version":
			k := (l.idx(to.Version()) + 1 + c.Intn(len(l.Vers)-1)) % len(l.Vers)
			i, err := lin.All()[k].Validate(val(rt, l.gen(c, k)))
			if err != nil {
				panic(err)
			}
			return i, nil
		case "other lineage":
			s, _ := olin.Schema(to.Version())
			i, err := s.Validate(ok().Underlying())
			if err != nil {
				panic(err)
			}
			return i, nil
		case "zero":
			return &thema.Instance{}, nil
		}
		panic(kind)
	}
	l.Opts = []thema.BindOption{thema.SkipBuggyChecks()}
	lenses := l.goLenses(rt, &rec, bad, fault)
	c.Shuffle(len(lenses), func(a, b int) { lenses[a], lenses[b] = lenses[b], lenses[a] })
	lin = l.bind(c, rt, thema.ImperativeLenses(lenses...))
	all := lin.All()
	for n := 0; n < 6; n++ {
		i, j := c.Intn(len(all)), c.Intn(len(all))
		d := l.gen(c, i)
		inst := mustValidate(c, all[i], val(rt, d))
		c.Logf("%s: %v -> %v, lens %d: %s", cueLit(d), l.Vers[i], l.Vers[j], bad, kind)
		rec = nil
		var ti *thema.Instance
		var terr error
		pan, did := hlib.Panics(func() { ti, _, terr = inst.Translate(l.Vers[j]) })
		path := l.lensPath(i, j)
		fails := -1
		for k, id := range path {
			if bad >= 0 && id == ids[bad] {
				fails = k
			}
		}
		nwant := len(path)
		if fails >= 0 {
			nwant = fails + 1
		}
		c.Key("%v %d %d %d %s", l.Vers, i, j, fails, kind)
		var got []lensid
		for _, r := range rec {
			got = append(got, r.id)
		}
		c.Check(len(got) == nwant && (nwant == 0 || reflect.DeepEqual(got, path[:nwant])), "lenses called: %v, expected %v", got, path[:nwant])
		// what every lens was given
		cur, at := d, i
		var prev *thema.Instance
		for k, r := range rec {
			from := l.idx(r.id.From)
			cur, _ = l.translate(at, from, cur, false)
			checkInst(c, r.in, all[from], cur)
			c.Check(r.to == all[l.idx(r.id.To)], "lens %v was given schema %v", r.id, r.to.Version())
			if prev != nil && at == from {
				c.Check(r.in == prev, "lens %v was not given the previous lens's instance", r.id)
			}
			if k == 0 && at == from {
				c.Check(r.in == inst, "the first lens was not given the instance")
			}
			cur, _ = l.step(from, l.idx(r.id.To), cur, false)
			at = l.idx(r.id.To)
			prev = r.out
		}
		if fails >= 0 {
			if kind == "zero" {
				c.Check(did || terr != nil && ti == nil, "a lens's zero instance was accepted")
				continue
			}
			c.Check(!did, "panic: %v", pan)
			c.Check(ti == nil && terr != nil, "lens fault %s: instance %v, error %v", kind, ti != nil, terr)
			c.Check(errors.Is(terr, terrors.ErrInvalidLens), "lens fault %s: %v", kind, terr)
			if kind == "error" || kind == "error and instance" {
				c.Check(errors.Is(terr, lensErr), "the lens's error is lost: %v", terr)
			}
			continue
		}
		c.Check(!did, "panic: %v", pan)
		c.Check(terr == nil, "translation failed: %v", terr)
		wd, _ := l.translate(i, j, d, false)
		checkInst(c, ti, all[j], wd)
		if i == j {
			c.Check(ti == inst, "translating to its own version gave another instance")
		}
		if len(path) == 0 {
			c.Check(ti.Underlying() == inst.Underlying(), "a minor upgrade changed the data")
		}
		checkInst(c, inst, all[i], d)
	}
}

// ---------------------------------------------------------------- P11
func p11(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 9)), genOpts{plain: true})
	ids := l.lensIDs()
	var rec []call
	lenses := l.goLenses(rt, &rec, -1, nil)
	nop := func(in *thema.Instance, to thema.Schema) (*thema.Instance, error) { return nil, stderrors.New("nop") }
	extra := func() lensid {
		for {
			rv := func() Ver {
				if c.Intn(4) == 0 {
					return Ver{uint(c.Intn(12)), uint(c.Intn(12))}
				}
				return l.Vers[c.Intn(len(l.Vers))]
			}
			id := lensid{rv(), rv()}
			has := false
			for _, o := range ids {
				has = has || o == id
			}
			if !has {
				return id
			}
		}
	}
	kind := pick(c, "ok", "ok", "missing", "extra", "dup", "nil", "missing+extra", "extra2")
	var want error
	x := extra()
	switch kind {
	case "missing", "missing+extra":
		if len(ids) < 2 {
			kind = "ok"
			break
		}
		k := c.Intn(len(ids))
		lenses = append(lenses[:k:k], lenses[k+1:]...)
		want = terrors.ErrMissingLenses
		if kind == "missing+extra" {
			lenses = append(lenses, thema.ImperativeLens{From: x.From, To: x.To, Mapper: nop})
		}
	case "extra", "extra2":
		lenses = append(lenses, thema.ImperativeLens{From: x.From, To: x.To, Mapper: nop})
		want = terrors.ErrErroneousLenses
		if y := extra(); kind == "extra2" && y != x {
			lenses = append(lenses, thema.ImperativeLens{From: y.From, To: y.To, Mapper: nop})
		}
	case "dup":
		if len(ids) == 0 {
			kind = "ok"
			break
		}
		k := c.Intn(len(ids))
		lenses = append(lenses, thema.ImperativeLens{From: ids[k].From, To: ids[k].To, Mapper: nop})
		want = errAny
	case "nil":
		if len(ids) == 0 {
			kind = "ok"
			break
		}
		lenses[c.Intn(len(ids))].Mapper = nil
		want = errAny
	}
	c.Shuffle(len(lenses), func(a, b int) { lenses[a], lenses[b] = lenses[b], lenses[a] })
	src := l.render()
	c.Logf("versions %v, %s, extra %v\n%s", l.Vers, kind, x, src)
	c.Key("%v %s %v", l.Vers, kind, x)
	opts := []thema.BindOption{thema.SkipBuggyChecks()}
	if k := c.Intn(len(lenses) + 1); c.Intn(2) == 0 {
		opts = append(opts, thema.ImperativeLenses(lenses[:k]...), thema.ImperativeLenses(lenses[k:]...))
	} else {
		opts = append(opts, thema.ImperativeLenses(lenses...))
	}
	lin, err := thema.BindLineage(compile(rt, src), rt, opts...)
	c.Logf("BindLineage: %v", err)
	c.Check((lin == nil) == (err != nil), "lineage %v with error %v", lin != nil, err)
	switch want {
	case nil:
		c.Check(err == nil, "the right lenses were refused: %v", err)
		// every lens is the one used for its pair
		for _, id := range ids {
			i := l.idx(id.From)
			inst := mustValidate(c, lin.All()[i], val(rt, l.gen(c, i)))
			rec = nil
			_, _, err := inst.Translate(id.To)
			c.Check(err == nil && len(rec) == 1 && rec[0].id == id, "translating %v: %v, lenses called: %v", id, err, rec)
		}
	case errAny:
		c.Check(err != nil, "accepted in spite of a %s lens", kind)
	default:
		c.Check(err != nil, "accepted, expected %v", want)
		c.Check(errors.Is(err, want), "error is %v, expected %v", err, want)
	}
}

// ---------------------------------------------------------------- P12
func p12(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 7)), genOpts{plain: true})
	var ids []lensid
	free := c.Intn(2) == 0
	if free {
		// any list of version pairs, ordered or not
		for n := c.Intn(6); n > 0; n-- {
			ids = append(ids, lensid{Ver{uint(c.Intn(3)), uint(c.Intn(12))}, Ver{uint(c.Intn(3)), uint(c.Intn(12))}})
		}
		if c.Intn(2) == 0 {
			l2 := &Lin{}
			_ = l2
			sortIDs(ids)
		}
	} else {
		ids = l.lensIDs()
		if len(ids) > 1 && c.Intn(2) == 0 {
			a, b := c.Intn(len(ids)), c.Intn(len(ids))
			switch c.Intn(3) {
			case 0:
				ids[a], ids[b] = ids[b], ids[a]
			case 1:
				ids = append(ids[:a+1:a+1], ids[a:]...)
			case 2:
				ids[a].From, ids[a].To = ids[a].To, ids[a].From
			}
		}
	}
	ok := true
	for i := 1; i < len(ids); i++ {
		p, q := ids[i-1], ids[i]
		ok = ok && (lessV(p.To, q.To) || p.To == q.To && lessV(p.From, q.From))
	}
	var b strings.Builder
	b.WriteString("lenses: [\n")
	unread := -1
	if len(ids) > 0 && c.Intn(6) == 0 {
		unread = c.Intn(len(ids))
	}
	for i, id := range ids {
		f, t := vlist(id.From), vlist(id.To)
		if i == unread {
			if c.Intn(2) == 0 {
				f = "[uint64, 0]"
			} else {
				t = "[0, uint64]"
			}
		}
		fmt.Fprintf(&b, "{from: %s, to: %s, input: _, result: {}},\n", f, t)
	}
	b.WriteString("]\n")
	src := strings.Replace(l.render(), "lenses: [\n]\n", b.String(), 1)
	c.Logf("%s", src)
	c.Key("%v %d", ids, unread)
	lin, err := thema.BindLineage(compile(rt, src), rt, thema.SkipBuggyChecks())
	c.Logf("BindLineage: %v (ordered: %v, unreadable: %d)", err, ok, unread)
	c.Check((lin == nil) == (err != nil), "lineage %v with error %v", lin != nil, err)
	if unread >= 0 {
		c.Check(err != nil, "bound with an unreadable lens version")
		c.Check(errors.Is(err, terrors.ErrInvalidLineage) || errors.Is(err, terrors.ErrInvalidLensesOrder), "error is %v", err)
		return
	}
	if ok {
		c.Check(err == nil, "ordered lenses were refused: %v", err)
	} else {
		c.Check(err != nil && errors.Is(err, terrors.ErrInvalidLensesOrder), "unordered lenses: %v", err)
	}
}

func sortIDs(ids []lensid) {
	for i := range ids {
		for j := i + 1; j < len(ids); j++ {
			if lessV(ids[j].To, ids[i].To) || ids[i].To == ids[j].To && lessV(ids[j].From, ids[i].From) {
				ids[i], ids[j] = ids[j], ids[i]
			}
		}
	}
}

// ---------------------------------------------------------------- P15
func p15(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 6)), genOpts{defaults: true})
	n := &Lin{Name: l.Name, Vers: append([]Ver{}, l.Vers...), Lac: map[string][]LacM{}}
	for _, s := range l.Sch {
		n.Sch = append(n.Sch, append([]Fld{}, s...))
	}
	kind := pick(c, "same", "longer", "shorter", "changed", "widened", "narrowed", "extra field", "reordered fields", "longer and changed")
	ok := true
	ext := func() {
		last := n.Vers[len(n.Vers)-1]
		n.Vers = append(n.Vers, Ver{last[0] + 1, 0})
		n.Sch = append(n.Sch, []Fld{{"brandnew", false, "string"}})
	}
	k := c.Intn(len(n.Vers))
	switch kind {
	case "longer":
		ext()
	case "shorter":
		if len(n.Vers) == 1 {
			c.Skip()
		}
		n.Vers, n.Sch = n.Vers[:len(n.Vers)-1], n.Sch[:len(n.Sch)-1]
		ok = false
	case "changed", "longer and changed":
		if kind != "changed" {
			ext()
		}
		n.Sch[k][0].T = pick(c, "int", "bool")
		ok = false
	case "widened":
		n.Sch[k] = append(n.Sch[k], Fld{"extraopt", true, "string"})
		ok = false
	case "narrowed":
		n.Sch[k][0].T = "enum"
		ok = false
	case "extra field":
		n.Sch[k] = append(n.Sch[k], Fld{"extrareq", false, "string"})
		ok = false
	case "reordered fields":
		for i := range n.Sch {
			s := n.Sch[i]
			c.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
		}
	}
	if c.Intn(3) == 0 {
		// the same schemas under other version numbers
		n.Vers = []Ver{{0, 0}}
		for len(n.Vers) < len(n.Sch) {
			last := n.Vers[len(n.Vers)-1]
			n.Vers = append(n.Vers, pick(c, Ver{last[0] + 1, 0}, Ver{last[0], last[1] + 1}))
		}
	}
	if c.Intn(4) == 0 {
		n.Name = "other"
	}
	if c.Intn(4) == 0 {
		n.Join = []Fld{{"joined", true, "string"}}
	}
	l.Opts = []thema.BindOption{thema.SkipBuggyChecks()}
	n.Opts = l.Opts
	lo, ln := l.bind(c, rt), n.bind(c, rt)
	c.Key("%v %v %s %d", l.Vers, n.Vers, kind, k)
	err := thema.IsAppendOnly(lo, ln)
	c.Logf("%s at %d, versions %v: %v", kind, k, n.Vers, err)
	c.Check((err == nil) == ok, "IsAppendOnly, new lineage %s (schema %d): %v", kind, k, err)
}

// ---------------------------------------------------------------- P19
func p19(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 6)), genOpts{defaults: true, lacunas: true})
	var rec []call
	var lin thema.Lineage
	goLens := c.Intn(2) == 0
	if goLens && len(l.Vers) > 1 {
		lin = l.bind(c, rt, thema.ImperativeLenses(l.goLenses(rt, &rec, -1, nil)...))
	} else {
		goLens = false
		l.Lenses = true
		lin = l.bind(c, rt)
	}
	all := lin.All()
	c.Key("%v %v", l.Vers, goLens)
	for i, s := range all {
		d := l.gen(c, i)
		inst := mustValidate(c, s, val(rt, d))
		for _, up := range []bool{true, false} {
			c.Logf("%v %s up=%v", s.Version(), cueLit(d), up)
			rec = nil
			var ti *thema.Instance
			var lac thema.TranslationLacunas
			var err error
			j := i - 1
			if up {
				j = i + 1
				ti, lac, err = inst.AsSuccessor()
			} else {
				ti, lac, err = inst.AsPredecessor()
			}
			c.Check((ti == nil) == (err != nil), "instance %v with error %v", ti != nil, err)
			if j < 0 || j >= len(all) {
				c.Check(errors.Is(err, terrors.ErrVersionNotExist), "at the end of the lineage: %v", err)
				continue
			}
			c.Check(err == nil, "step failed: %v", err)
			minorUp := up && l.Vers[i][0] == l.Vers[j][0]
			if minorUp {
				c.Check(ti.Underlying() == inst.Underlying(), "a step up one minor version changed the data to %s", show(ti.Underlying()))
				checkInst(c, ti, all[j], d)
				c.Check(len(rec) == 0, "lens called")
			} else {
				wd, wl := l.step(i, j, d, !goLens)
				checkInst(c, ti, all[j], wd)
				if goLens {
					c.Check(len(rec) == 1 && rec[0].in == inst, "lenses called: %v", rec)
				} else {
					checkLacunas(c, lac, wl)
				}
			}
			checkInst(c, inst, s, d)
		}
	}
}

// ---------------------------------------------------------------- P20
func p20(c *Case) {
	if c.Intn(4) == 0 && c.Index > 20 {
		p20defaults(c)
		return
	}
	rt := newRT()
	// case k < 127: the k-th composition (shape) of 1..7 schemas; bits say where a major starts
	var sh []int
	n, k := 1, c.Index
	for n <= 7 && k >= 1<<(n-1) {
		k -= 1 << (n - 1)
		n++
	}
	if n <= 7 {
		sh = []int{1}
		for b := 0; b < n-1; b++ {
			if k>>b&1 == 1 {
				sh = append(sh, 1)
			} else {
				sh[len(sh)-1]++
			}
		}
	} else {
		sh = shape(c, 12)
	}
	l := genLin(c, versOf(sh), genOpts{lenses: true, plain: true})
	lin := l.bind(c, rt, thema.SkipBuggyChecks())
	all := lin.All()
	c.Key("%v", sh)
	// flat indices
	u := lin.Underlying()
	for i, v := range l.Vers {
		fi := u.LookupPath(cue.MakePath(cue.Hid("_flatidx", "github.com/grafana/thema")))
		if fi.Exists() {
			x, err := fi.FillPath(cue.ParsePath("v"), rt.Context().CompileString(vlist(v))).LookupPath(cue.ParsePath("out")).Int64()
			c.Check(err == nil && int(x) == i, "_flatidx of %v is %d (%v), expected %d", v, x, err, i)
		}
	}
	pairs := [][2]int{}
	for i := range all {
		for j := range all {
			if len(all) <= 4 || c.Intn(len(all)*len(all)) < 14 || j == 0 && i == len(all)-1 || i == 0 && j == len(all)-1 {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	for _, p := range pairs {
		i, j := p[0], p[1]
		d := l.gen(c, i)
		inst := mustValidate(c, all[i], val(rt, d))
		c.Logf("%v -> %v: %s", l.Vers[i], l.Vers[j], cueLit(d))
		ti, _, err := inst.Translate(l.Vers[j])
		c.Check(err == nil, "translation failed: %v", err)
		wd, _ := l.translate(i, j, d, true)
		checkInst(c, ti, all[j], wd)
	}
}

// ---------------------------------------------------------------- P23
func checkLacunas(c *Case, lac thema.TranslationLacunas, want []LacM) {
	var got []thema.Lacuna
	if lac != nil {
		got = lac.AsList()
	}
	c.Check(len(got) == len(want), "%d lacunas, expected %d: %v, %v", len(got), len(want), got, want)
	for k, w := range want {
		g := got[k]
		c.Check(g.Message == w.Msg && int(g.Type) == w.Typ, "lacuna %d is %v, expected %v", k, g, w)
		c.Check(len(g.SourceFields) == w.nsrc() && len(g.TargetFields) == w.ntgt(), "lacuna %d has fields %v and %v, expected %d and %d", k, g.SourceFields, g.TargetFields, w.nsrc(), w.ntgt())
		for q, f := range g.SourceFields {
			c.Check(f.Path == w.Path && fmt.Sprint(f.Value) == fmt.Sprint(w.Val+q), "source fields of lacuna %d are %v, expected %v", k, g.SourceFields, w)
		}
		for q, f := range g.TargetFields {
			c.Check(f.Path == fmt.Sprintf("t%d", q) && fmt.Sprint(f.Value) == "v", "target fields of lacuna %d are %v", k, g.TargetFields)
		}
	}
}

func p23(c *Case) {
	rt := newRT()
	l := genLin(c, versOf(shape(c, 6)), genOpts{lenses: true, plain: true, lacunas: true})
	lin := l.bind(c, rt, thema.SkipBuggyChecks())
	all := lin.All()
	for n := 0; n < 6; n++ {
		i, j := c.Intn(len(all)), c.Intn(len(all))
		d := l.gen(c, i)
		inst := mustValidate(c, all[i], val(rt, d))
		c.Logf("%v -> %v: %s", l.Vers[i], l.Vers[j], cueLit(d))
		_, lac, err := inst.Translate(l.Vers[j])
		c.Check(err == nil, "translation failed: %v", err)
		_, wl := l.translate(i, j, d, true)
		c.Key("%v %d %d %d", l.Vers, i, j, len(wl))
		c.Check(lac != nil, "no lacunas object")
		checkLacunas(c, lac, wl)
		// the versions the lacunas came up at
		var wv []Ver
		x := d
		for k := i; k != j; {
			nx := k + 1
			if j < k {
				nx = k - 1
			}
			var s []LacM
			x, s = l.step(k, nx, x, true)
			if len(s) > 0 {
				wv = append(wv, l.Vers[nx])
			}
			k = nx
		}
		rv := reflect.ValueOf(lac)
		if rv.Kind() == reflect.Slice && rv.Type().Elem().Kind() == reflect.Struct && rv.Type().Elem().NumField() == 2 && rv.Type().Elem().Field(0).Name == "V" {
			var gv []Ver
			for k := 0; k < rv.Len(); k++ {
				gv = append(gv, rv.Index(k).Field(0).Interface().(Ver))
			}
			c.Check(fmt.Sprint(gv) == fmt.Sprint(wv), "lacunas at versions %v, expected %v", gv, wv)
		}
	}
}

// p20defaults: each minor version adds a field with a default, which the lens
// into the next major uses; what arrives there shows that every schema on the
// way was unified with.
func p20defaults(c *Case) {
	rt := newRT()
	sh := make([]int, 1+c.Intn(3))
	for i := range sh {
		sh[i] = 1 + c.Intn(3)
	}
	vs := versOf(sh)
	dflt := func(v Ver) int { return 10*int(v[0]) + int(v[1]) }
	fld := func(v Ver) string { return fmt.Sprintf("d%d_%d", v[0], v[1]) }
	fields := func(k int) (opt []Ver) { // those with defaults in schema k
		for j := k; j >= 0 && vs[j][0] == vs[k][0]; j-- {
			if vs[j][1] > 0 {
				opt = append(opt, vs[j])
			}
		}
		return opt
	}
	var b, lb strings.Builder
	b.WriteString("name: \"defs\"\nschemas: [\n")
	for k, v := range vs {
		fmt.Fprintf(&b, "  {version: %s, schema: {trace: string, m%d: int", vlist(v), v[0])
		for _, f := range fields(k) {
			fmt.Fprintf(&b, ", %s: int | *%d", fld(f), dflt(f))
		}
		b.WriteString("}},\n")
		if k == 0 {
			continue
		}
		p := vs[k-1]
		fmt.Fprintf(&lb, "  {to: %s, from: %s, input: _, result: {trace: input.trace + \"<\", m%d: input.m%d", vlist(p), vlist(v), p[0], v[0])
		if p[0] == v[0] {
			for _, f := range fields(k - 1) {
				fmt.Fprintf(&lb, ", %s: input.%s", fld(f), fld(f))
			}
			lb.WriteString("}},\n")
			continue
		}
		lb.WriteString("}},\n")
		fmt.Fprintf(&lb, "  {to: %s, from: %s, input: _, result: {trace: input.trace + \">\", m%d: input.m%d", vlist(v), vlist(p), v[0], p[0])
		for _, f := range fields(k - 1) {
			fmt.Fprintf(&lb, " + 100*input.%s", fld(f))
		}
		lb.WriteString("}},\n")
	}
	src := b.String() + "]\nlenses: [\n" + lb.String() + "]\n"
	c.Logf("%s", src)
	lin, err := thema.BindLineage(compile(rt, src), rt, thema.SkipBuggyChecks())
	c.Check(err == nil, "BindLineage: %v", err)
	all := lin.All()
	for n := 0; n < 4; n++ {
		i, j := c.Intn(len(vs)), c.Intn(len(vs))
		d := Data{"trace": "t", fmt.Sprintf("m%d", vs[i][0]): c.Intn(9)}
		for _, f := range fields(i) {
			// (an instance's own defaults are not filled in before the first lens)
			d[fld(f)] = pick(c, dflt(f), 50+c.Intn(9))
		}
		inst := mustValidate(c, all[i], val(rt, d))
		c.Logf("%v -> %v: %s", vs[i], vs[j], cueLit(d))
		ti, _, err := inst.Translate(vs[j])
		c.Check(err == nil, "translation failed: %v", err)
		// the model
		x := Data{}
		for k, v := range d {
			x[k] = v
		}
		fill := func(k int) {
			for _, f := range fields(k) {
				if _, has := x[fld(f)]; !has {
					x[fld(f)] = dflt(f)
				}
			}
		}
		if i == j {
			checkInst(c, ti, all[j], x)
			continue
		}
		for k := i; k != j; {
			nx := k + 1
			if j < k {
				nx = k - 1
			}
			switch {
			case vs[nx][0] != vs[k][0]:
				m := x[fmt.Sprintf("m%d", vs[k][0])].(int)
				t := x["trace"].(string)
				if nx > k {
					for _, f := range fields(k) {
						m += 100 * x[fld(f)].(int)
					}
					t += ">"
				} else {
					t += "<"
				}
				x = Data{"trace": t, fmt.Sprintf("m%d", vs[nx][0]): m}
			case nx < k:
				delete(x, fld(vs[k]))
				x["trace"] = x["trace"].(string) + "<"
			}
			fill(nx)
			k = nx
		}
		checkInst(c, ti, all[j], x)
	}
	c.Key("defaults %v", sh)
}
