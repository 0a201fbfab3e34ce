package main

import (
	stderrors "errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"cuelang.org/go/cue"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	"github.com/grafana/thema/internal/zzverif/hlib"
	"github.com/grafana/thema/vmux"
)

// recDecoder counts its calls, and fails on the input "fail".
type recDecoder struct {
	vmux.Codec
	n    int
	last cue.Value
	enc  int
	err  error
	eerr error
}

func (r *recDecoder) Decode(ctx *cue.Context, b []byte) (cue.Value, error) {
	r.n++
	if r.err != nil {
		return cue.Value{}, r.err
	}
	v, err := r.Codec.Decode(ctx, b)
	r.last = v
	return v, err
}

func (r *recDecoder) Encode(v cue.Value) ([]byte, error) {
	r.enc++
	if r.eerr != nil {
		return []byte("partial"), r.eerr
	}
	return r.Codec.Encode(v)
}

func codec(c *Case) *recDecoder {
	if c.Intn(3) == 0 {
		return &recDecoder{Codec: vmux.NewYAMLCodec("in.yaml")}
	}
	return &recDecoder{Codec: vmux.NewJSONCodec("in.json")}
}

// muxLin makes a lineage for the mux searches: Go or CUE lenses.
// badLens: lens index that fails.
func muxLin(c *Case, rt *thema.Runtime, rec *[]call) (*Lin, thema.Lineage, bool, int, error) {
	l := genLin(c, versOf(shape(c, 6)), genOpts{lacunas: true, defaults: true})
	ids := l.lensIDs()
	if len(ids) > 0 && c.Intn(2) == 0 {
		bad := -1
		if c.Intn(3) == 0 {
			bad = c.Intn(len(ids))
		}
		lerr := stderrors.New("lens failed")
		lin := l.bind(c, rt, thema.ImperativeLenses(l.goLenses(rt, rec, bad, func(*thema.Instance, thema.Schema, func() *thema.Instance) (*thema.Instance, error) {
			return nil, lerr
		})...))
		return l, lin, true, bad, lerr
	}
	l.Lenses = true
	return l, l.bind(c, rt), false, -1, nil
}

type muxWant struct {
	kind  string // decode, self, translate, lenserr, nomatch
	from  int
	data  Data
	lac   []LacM
	input Data
	bytes []byte
}

// muxCase makes an input and says what a mux for schema t has to do with it.
func muxCase(c *Case, l *Lin, t int, goLens bool, bad int, dec *recDecoder) muxWant {
	i := c.Intn(len(l.Vers))
	d := l.gen(c, i)
	for m := pick(c, 0, 0, 0, 1, 2); m > 0; m-- {
		d = l.mutate(c, i, d)
	}
	w := muxWant{input: d, bytes: []byte(cueLit(d))}
	dec.err = nil
	switch c.Intn(8) {
	case 0:
		dec.err = stderrors.New("decoder failed")
		w.kind = "decode"
		return w
	case 1:
		w.bytes = []byte(pick(c, "{", "[1", `{"a":`, "\x00\x01{", `{"trace": }`))
		w.kind = "decode"
		return w
	}
	if l.ok(t, d) {
		w.kind, w.from, w.data = "self", t, d
		return w
	}
	for j := len(l.Vers) - 1; j >= 0; j-- {
		if j != t && l.ok(j, d) {
			w.kind, w.from = "translate", j
			w.data, w.lac = l.translate(j, t, d, !goLens)
			for _, id := range l.lensPath(j, t) {
				if bad >= 0 && l.lensIDs()[bad] == id {
					w.kind = "lenserr"
				}
			}
			return w
		}
	}
	w.kind = "nomatch"
	return w
}

// ---------------------------------------------------------------- P13
func p13(c *Case) {
	rt := newRT()
	var rec []call
	l, lin, goLens, bad, lerr := muxLin(c, rt, &rec)
	t := c.Intn(len(l.Vers))
	sch := lin.All()[t]
	dec := codec(c)
	mux := vmux.NewUntypedMux(sch, dec)
	for n := 0; n < 6; n++ {
		w := muxCase(c, l, t, goLens, bad, dec)
		dec.n = 0
		rec = nil
		c.Logf("mux for %v, %s of %q from %d", l.Vers[t], w.kind, w.bytes, w.from)
		c.Key("%v %d %s %d", l.Vers, t, w.kind, w.from)
		inst, lac, err := mux(w.bytes)
		c.Logf("mux: %v", err)
		c.Check(dec.n == 1, "decoded %d times", dec.n)
		c.Check((inst == nil) == (err != nil), "instance %v with error %v", inst != nil, err)
		switch w.kind {
		case "decode":
			c.Check(err != nil && lac == nil, "undecodable input: %v, %v", inst, err)
			if dec.err != nil {
				c.Check(err == dec.err, "decoder's error became %v", err)
			}
		case "self":
			c.Check(err == nil, "input valid for the mux's schema was refused: %v", err)
			c.Check(lac == nil, "lacunas without a translation: %v", lac)
			c.Check(inst.Schema() == sch, "instance of %v", inst.Schema().Version())
			c.Check(inst.Underlying() == dec.last, "other data")
			c.Check(len(rec) == 0, "lenses called")
		case "translate":
			c.Check(err == nil, "input valid for %v was refused: %v", l.Vers[w.from], err)
			checkInst(c, inst, sch, w.data)
			if !goLens {
				checkLacunas(c, lac, w.lac)
			} else if path := l.lensPath(w.from, t); len(path) > 0 {
				c.Check(len(rec) == len(path) && rec[0].id == path[0], "lenses called: %v, expected %v", rec, path)
			}
		case "lenserr":
			c.Check(err != nil && errors.Is(err, lerr), "lens failed, mux: %v", err)
		case "nomatch":
			c.Check(err != nil, "input valid at no version was accepted")
			_, verr := sch.Validate(dec.last)
			u := stderrors.Unwrap(err)
			c.Check(u != nil && verr != nil && reflect.TypeOf(u) == reflect.TypeOf(verr) && u.Error() == verr.Error(), "the no-match error %v does not wrap the schema's own validation error %v", err, verr)
		}
	}
}

// ---------------------------------------------------------------- P14

// goType makes a struct type for schema i of l.
func goType(fs []Fld) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		var t reflect.Type
		switch f.T {
		case "string", "enum", "defs":
			t = reflect.TypeOf("")
		case "int", "small", "def":
			t = reflect.TypeOf(int64(0))
		case "bool":
			t = reflect.TypeOf(false)
		}
		tag := f.Name
		if f.Opt {
			tag += ",omitempty"
			t = reflect.PointerTo(t)
		}
		sf = append(sf, reflect.StructField{Name: strings.ToUpper(f.Name[:1]) + f.Name[1:], Type: t, Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, tag))})
	}
	return reflect.StructOf(sf)
}

// T0 is assignable from the first schema of the typed lineages.
type T0 struct {
	Trace string `json:"trace"`
	M0    string `json:"m0"`
	D     int64  `json:"d"`
}

type T1 struct {
	Trace string `json:"trace"`
	M1    string `json:"m1"`
	D     int64  `json:"d"`
}

// typedLin makes a lineage whose 0.0 (1.0) schema is assignable to T0 (T1).
func typedLin(c *Case) *Lin {
	l := genLin(c, versOf(append([]int{1 + c.Intn(3), 1 + c.Intn(2)}, make([]int, 0)...)), genOpts{lacunas: true})
	for i, v := range l.Vers {
		fs := []Fld{{"trace", false, "string"}, {fmt.Sprintf("m%d", v[0]), false, "string"}, {"d", false, "def"}}
		for _, f := range l.Sch[i] {
			if f.Opt && v[1] > 0 {
				fs = append(fs, f)
			}
		}
		l.Sch[i] = fs
	}
	// keep the optional fields of a major cumulative
	for i := 1; i < len(l.Vers); i++ {
		if l.Vers[i][0] == l.Vers[i-1][0] {
			l.Sch[i] = append(append([]Fld{}, l.Sch[i-1]...), Fld{fmt.Sprintf("o%d", i), true, pick(c, "string", "int")})
		}
	}
	return l
}

func bindTyped(c *Case, rt *thema.Runtime, rec *[]call) (l *Lin, lin thema.Lineage, goLens bool, bad int, lerr error) {
	l = typedLin(c)
	ids := l.lensIDs()
	bad = -1
	if c.Intn(2) == 0 {
		if c.Intn(3) == 0 {
			bad = c.Intn(len(ids))
		}
		lerr = stderrors.New("lens failed")
		lin = l.bind(c, rt, thema.SkipBuggyChecks(), thema.ImperativeLenses(l.goLenses(rt, rec, bad, func(*thema.Instance, thema.Schema, func() *thema.Instance) (*thema.Instance, error) {
			return nil, lerr
		})...))
		return l, lin, true, bad, lerr
	}
	l.Lenses = true
	return l, l.bind(c, rt, thema.SkipBuggyChecks()), false, -1, nil
}

func p14(c *Case) {
	rt := newRT()
	var rec []call
	l, lin, goLens, bad, lerr := bindTyped(c, rt, &rec)
	if c.Intn(2) == 0 {
		p14t(c, rt, l, lin, goLens, bad, lerr, l.idx(Ver{0, 0}), &T0{}, func(t *T0) Data { return Data{"trace": t.Trace, "m0": t.M0, "d": t.D} })
	} else {
		p14t(c, rt, l, lin, goLens, bad, lerr, l.idx(Ver{1, 0}), &T1{}, func(t *T1) Data { return Data{"trace": t.Trace, "m1": t.M1, "d": t.D} })
	}
}

func p14t[T any](c *Case, rt *thema.Runtime, l *Lin, lin thema.Lineage, goLens bool, bad int, lerr error, t int, zero *T, data func(*T) Data) {
	sch := lin.All()[t]
	ts, err := thema.BindType[*T](sch, zero)
	if err != nil {
		c.Fail("BindType: %v", err)
	}
	dec := codec(c)
	um := vmux.NewUntypedMux(sch, dec)
	tm := vmux.NewTypedMux(ts, dec)
	bm := vmux.NewByteMux(sch, dec)
	vm := vmux.NewValueMux(ts, dec)
	for n := 0; n < 5; n++ {
		w := muxCase(c, l, t, goLens, bad, dec)
		c.Logf("muxes for %v, %s of %q from %d", l.Vers[t], w.kind, w.bytes, w.from)
		c.Key("%v %d %s %d", l.Vers, t, w.kind, w.from)
		dec.eerr = nil
		if c.Intn(5) == 0 {
			dec.eerr = stderrors.New("encoder failed")
		}
		ui, ul, uerr := um(w.bytes)
		ti, tl, terr := tm(w.bytes)
		dec.enc = 0
		bo, bl, berr := bm(w.bytes)
		nenc := dec.enc
		vo, vl, verr := vm(w.bytes)
		c.Logf("errors: %v, %v, %v, %v", uerr, terr, berr, verr)
		c.Check((ui == nil) == (uerr != nil) && (ti == nil) == (terr != nil), "instance with error")
		c.Check((uerr == nil) == (terr == nil), "untyped: %v, typed: %v", uerr, terr)
		c.Check((uerr == nil) == (verr == nil), "untyped: %v, value: %v", uerr, verr)
		wantErr := w.kind != "self" && w.kind != "translate"
		c.Check((uerr != nil) == wantErr, "%s: %v", w.kind, uerr)
		if uerr != nil {
			c.Check(berr != nil && bo == nil, "byte mux: %q, %v", bo, berr)
			c.Check(nenc == 0, "encoded without an instance")
			same := func(e error) bool {
				return e == uerr || e.Error() == uerr.Error() && reflect.TypeOf(e) == reflect.TypeOf(uerr)
			}
			c.Check(same(terr) && same(berr) && same(verr), "errors differ: %v, %v, %v, %v", uerr, terr, berr, verr)
			if w.kind == "lenserr" {
				c.Check(errors.Is(terr, lerr) && errors.Is(berr, lerr) && errors.Is(verr, lerr), "lens error lost: %v", terr)
			}
			if w.kind == "nomatch" {
				c.Check(stderrors.Unwrap(terr) != nil && stderrors.Unwrap(terr).Error() == stderrors.Unwrap(uerr).Error(), "typed no-match error wraps something else: %v", terr)
			}
			continue
		}
		c.Check(ti.TypedSchema() == ts, "the typed instance has another typed schema")
		c.Check(ti.Schema() == sch, "the typed instance is an instance of %v", ti.Schema().Version())
		c.Check(reflect.DeepEqual(norm(ti.Underlying()), norm(ui.Underlying())), "typed instance has %s, untyped %s", show(ti.Underlying()), show(ui.Underlying()))
		c.Check(sameData(ui.Underlying(), w.data), "untyped instance has %s, expected %s", show(ui.Underlying()), cueLit(w.data))
		la := func(x thema.TranslationLacunas) string {
			if x == nil {
				return "nil"
			}
			return fmt.Sprint(x.AsList())
		}
		c.Check(la(ul) == la(tl) && la(ul) == la(bl) && la(ul) == la(vl), "lacunas differ: %v %v %v %v", la(ul), la(tl), la(bl), la(vl))
		if dec.eerr != nil {
			c.Check(berr == dec.eerr, "encoder's error became %v", berr)
		} else {
			c.Check(berr == nil, "byte mux: %v", berr)
			wb, _ := dec.Codec.Encode(ui.Underlying())
			c.Check(string(wb) == string(bo), "byte mux gave %q, the instance encodes to %q", bo, wb)
		}
		wd := Data{}
		for k, v := range w.data {
			if !strings.HasPrefix(k, "o") {
				wd[k] = v
			}
		}
		if _, has := wd["d"]; !has {
			wd["d"] = 7
		}
		c.Check(reflect.DeepEqual(norm(data(vo)), norm(wd)), "value mux gave %v, expected %v", cueLit(data(vo)), cueLit(wd))
		tv, e2 := ti.Value()
		c.Check(e2 == nil && reflect.DeepEqual(data(tv), data(vo)), "Value() differs: %v, %v", e2, cueLit(data(tv)))
	}
}

// ---------------------------------------------------------------- P16
type notAssignable struct {
	Trace int64 `json:"trace"`
}

func p16(c *Case) {
	rt := newRT()
	var rec []call
	l, lin, _, _, _ := bindTyped(c, rt, &rec)
	l2 := &Lin{Name: l.Name, Vers: l.Vers, Sch: l.Sch, Lac: map[string][]LacM{}}
	lin2 := l2.bind(c, rt, thema.SkipBuggyChecks())
	i0, i1 := l.idx(Ver{0, 0}), l.idx(Ver{1, 0})
	ts0, err := thema.BindType(lin.All()[i0], &T0{})
	c.Check(err == nil && ts0 != nil, "BindType: %v", err)
	ts1, err := thema.BindType(lin.All()[i1], &T1{})
	c.Check(err == nil && ts1 != nil, "BindType: %v", err)
	ts0b, err := thema.BindType(lin2.All()[i0], &T0{})
	c.Check(err == nil && ts0b != nil, "BindType: %v", err)
	// types the schema is not assignable to
	b0, err := thema.BindType(lin.All()[i1], &T0{})
	c.Check(err != nil && b0 == nil, "schema 1.0 was bound to the type of 0.0")
	b1, err := thema.BindType(lin.All()[i0], &notAssignable{})
	c.Check(err != nil && b1 == nil, "a schema was bound to a type it is not assignable to")
	c.Key("%v", l.Vers)
	// delegation
	s0 := lin.All()[i0]
	c.Check(ts0.Version() == s0.Version() && ts0.Lineage() == s0.Lineage() && ts0.Underlying() == s0.Underlying() && ts0.Successor() == s0.Successor() && ts0.Predecessor() == s0.Predecessor() && ts0.LatestInMajor() == s0.LatestInMajor(), "the typed schema does not delegate to its schema")
	c.Check(ts1.Version() == lin.All()[i1].Version() && ts1.Predecessor() == lin.All()[i1].Predecessor(), "the typed schema does not delegate to its schema")
	c.Check(ts0.ConvergentLineage().TypedSchema() == ts0, "ConvergentLineage has another typed schema")
	c.Check(ts0.ConvergentLineage().Latest() == lin.Latest(), "ConvergentLineage is another lineage")
	nt := ts0.NewT()
	c.Check(nt != nil && nt.D == 7 && nt.Trace == "" && nt.M0 == "", "NewT() = %+v", nt)
	nt.Trace = "changed"
	c.Check(ts0.NewT() != nt && ts0.NewT().Trace == "", "NewT returned the same value again")
	for n := 0; n < 8; n++ {
		i := c.Intn(len(l.Vers))
		d := l.gen(c, i)
		for m := pick(c, 0, 1); m > 0; m-- {
			d = l.mutate(c, i, d)
		}
		c.Logf("data %s of %v", cueLit(d), l.Vers[i])
		c.Key("%d %s", i, cueLit(d))
		v := val(rt, d)
		inst, err := s0.Validate(v)
		ti, terr := ts0.ValidateTyped(v)
		c.Check((err == nil) == (terr == nil), "Validate: %v, ValidateTyped: %v", err, terr)
		c.Check((ti == nil) == (terr != nil), "typed instance %v with error %v", ti != nil, terr)
		c.Check((err == nil) == l.ok(i0, d), "Validate: %v", err)
		if err != nil {
			c.Check(err.Error() == terr.Error(), "errors differ: %v, %v", err, terr)
		} else {
			c.Check(ti.TypedSchema() == ts0 && ti.Schema() == s0 && ti.Underlying() == v, "ValidateTyped bound the wrong things")
			bi, err := thema.BindInstanceType(inst, ts0)
			c.Check(err == nil && bi != nil && bi.Instance == inst && bi.TypedSchema() == ts0, "BindInstanceType: %v", err)
			x, err := thema.BindInstanceType(inst, ts0b)
			c.Check(err != nil && x == nil, "instance of one lineage bound to a typed schema of another")
			y, err := thema.BindInstanceType(inst, ts1)
			c.Check(err != nil && y == nil, "instance of 0.0 bound to the typed schema of 1.0")
		}
		// instances of other schemas
		for j, s := range lin.All() {
			oi, err := s.Validate(v)
			if err != nil {
				continue
			}
			bi, err := thema.BindInstanceType(oi, ts0)
			c.Check((err == nil) == (j == i0) && (bi != nil) == (j == i0), "instance of %v bound to the typed schema of 0.0: %v", l.Vers[j], err)
			bi1, err := thema.BindInstanceType(oi, ts1)
			c.Check((err == nil) == (j == i1) && (bi1 != nil) == (j == i1), "instance of %v bound to the typed schema of 1.0: %v", l.Vers[j], err)
		}
	}
}

// ---------------------------------------------------------------- P17

// lockOf finds the runtime's lock.
func lockOf(rt *thema.Runtime) (lock, unlock, rlock, runlock func(), try func() bool) {
	v := reflect.ValueOf(rt).Elem()
	for i := 0; i < v.NumField(); i++ {
		p := unsafe.Pointer(v.Field(i).UnsafeAddr())
		switch v.Field(i).Type() {
		case reflect.TypeOf(sync.RWMutex{}):
			m := (*sync.RWMutex)(p)
			return m.Lock, m.Unlock, m.RLock, m.RUnlock, func() bool {
				if m.TryLock() {
					m.Unlock()
					return true
				}
				return false
			}
		case reflect.TypeOf(sync.Mutex{}):
			m := (*sync.Mutex)(p)
			return m.Lock, m.Unlock, m.Lock, m.Unlock, func() bool {
				if m.TryLock() {
					m.Unlock()
					return true
				}
				return false
			}
		}
	}
	return nil, nil, nil, nil, nil
}

var panickyOn atomic.Bool

type panickyA struct {
	C string `json:"c"`
}

func (a *panickyA) UnmarshalJSON(b []byte) error {
	if panickyOn.Load() {
		panic("UnmarshalJSON panics")
	}
	return nil
}

type panicky struct {
	A panickyA `json:"a"`
	B string   `json:"b"`
}

func p17(c *Case) {
	rt := newRT()
	lock, unlock, rlock, runlock, free := lockOf(rt)
	if lock == nil {
		c.Skip()
	}
	l := typedLin(c)
	l.Lenses = true
	lin := l.bind(c, rt, thema.SkipBuggyChecks())
	ids := l.lensIDs()
	gl := &Lin{Name: "golin", Vers: l.Vers, Sch: l.Sch, Lac: map[string][]LacM{}}
	var rec []call
	lensPanics := false
	lensErr := false
	var lenses []thema.ImperativeLens
	for _, x := range gl.goLenses(rt, &rec, -1, nil) {
		x := x
		m := x.Mapper
		x.Mapper = func(in *thema.Instance, to thema.Schema) (*thema.Instance, error) {
			if !free() {
				panic("the lock is held while a lens is called")
			}
			if lensPanics {
				panic("lens panics")
			}
			if lensErr {
				return nil, stderrors.New("lens error")
			}
			return m(in, to)
		}
		lenses = append(lenses, x)
	}
	_ = ids
	glin := gl.bind(c, rt, thema.SkipBuggyChecks(), thema.ImperativeLenses(lenses...))
	all := lin.All()
	n := len(all)
	inst0 := mustValidate(c, all[0], val(rt, l.gen(c, 0)))
	instN := mustValidate(c, all[n-1], val(rt, l.gen(c, n-1)))
	ginst0 := mustValidate(c, glin.All()[0], val(rt, l.gen(c, 0)))
	ts0, err := thema.BindType(all[0], &T0{})
	c.Check(err == nil, "BindType: %v", err)
	good, bad := val(rt, l.gen(c, 0)), val(rt, Data{"trace": 3})
	errv := rt.Context().CompileString("_|_")
	src := compile(rt, l.render())
	badsrcs := []cue.Value{compile(rt, `name: "x"`), compile(rt, `name: "x", schemas: [{version: [1, 0], schema: {}}], lenses: []`), {}, compile(rt, "name: string\nschemas: []"), compile(rt, `a: 1 & 2`),
		compile(rt, `name: "x", schemas: [{version: [0, 0], schema: {a: string}}, {version: [0, 1], schema: {b: string}}], lenses: []`),
		compile(rt, `name: "x", schemas: [{version: [0, 0], schema: {a: string}}], lenses: [{from: [0, 1], to: [0, 1], input: _, result: {}}, {from: [0, 0], to: [0, 0], input: _, result: {}}]`)}
	mux := vmux.NewUntypedMux(all[0], vmux.NewJSONCodec("x.json"))
	vmx := vmux.NewValueMux(ts0, vmux.NewJSONCodec("x.json"))
	b0 := []byte(cueLit(l.gen(c, 0)))
	bN := []byte(cueLit(l.gen(c, n-1)))
	type op struct {
		name  string
		mode  string // "": none needed, "r": at least shared, "w": exclusive
		f     func()
		panic bool
	}
	ops := []op{
		{"Validate (accepted)", "r", func() { all[0].Validate(good) }, false},
		{"Validate (rejected)", "r", func() { all[0].Validate(bad) }, false},
		{"Validate (error value)", "r", func() { all[0].Validate(errv) }, false},
		{"ValidateAny", "r", func() { lin.ValidateAny(bad) }, false},
		{"ValidateTyped", "r", func() { ts0.ValidateTyped(good) }, false},
		{"Translate up", "w", func() { inst0.Translate(l.Vers[n-1]) }, false},
		{"Translate down", "w", func() { instN.Translate(Ver{}) }, false},
		{"Translate (no such version)", "", func() { inst0.Translate(Ver{77, 0}) }, true},
		{"AsSuccessor", "", func() { inst0.AsSuccessor() }, false},
		{"AsPredecessor", "w", func() { instN.AsPredecessor() }, false},
		{"AsPredecessor (first)", "", func() { inst0.AsPredecessor() }, false},
		{"NewT", "r", func() { ts0.NewT() }, false},
		{"BindType", "r", func() { thema.BindType(all[0], &T0{}) }, false},
		{"BindType (fails)", "r", func() { thema.BindType(all[0], &notAssignable{}) }, false},
		{"AssignableTo", "r", func() { thema.AssignableTo(all[0], &T0{}) }, false},
		{"AssignableTo (no struct)", "", func() { thema.AssignableTo(all[0], 3) }, false},
		{"BindLineage", "w", func() { thema.BindLineage(src, rt, thema.SkipBuggyChecks()) }, false},
		{"BindLineage (checked)", "w", func() { thema.BindLineage(src, rt) }, false},
		{"BindLineage (nil option)", "", func() { thema.BindLineage(src, rt, nil) }, true},
		{"mux", "r", func() { mux(b0) }, false},
		{"mux (translating)", "r", func() { mux(bN) }, false},
		{"value mux", "r", func() { vmx(b0) }, false},
		{"mux (undecodable)", "", func() { mux([]byte("{")) }, false},
		{"value mux (undecodable)", "r", func() { vmx([]byte("{")) }, false},
		{"Examples", "", func() { all[0].Examples() }, false},
		{"IsAppendOnly", "", func() { thema.IsAppendOnly(lin, lin) }, false},
		{"Hydrate", "", func() { inst0.Hydrate() }, false},
		{"Dehydrate", "", func() { inst0.Dehydrate() }, false},
		{"Translate (Go lenses)", "", func() { lensPanics, lensErr = false, false; ginst0.Translate(l.Vers[n-1]) }, false},
		{"Translate (Go lens fails)", "", func() { lensPanics, lensErr = false, true; ginst0.Translate(l.Vers[n-1]) }, false},
		{"Translate (Go lens panics)", "", func() { lensPanics, lensErr = true, false; ginst0.Translate(l.Vers[n-1]) }, true},
		{"Schema", "", func() { lin.Schema(Ver{9, 9}) }, false},
		{"zero instance", "", func() { (&thema.Instance{}).Translate(Ver{}) }, true},
	}
	if plin, err := thema.BindLineage(compile(rt, `name: "pl", schemas: [{version: [0, 0], schema: {a: {c: string | *"x"}, b: string | *"y"}}], lenses: []`), rt); err == nil {
		if pts, err := thema.BindType(plin.First(), &panicky{}); err == nil {
			ops = append(ops, op{"NewT (the type's UnmarshalJSON panics)", "", func() {
				panickyOn.Store(true)
				defer panickyOn.Store(false)
				pts.NewT()
			}, true})
		}
	}
	for i, b := range badsrcs {
		b := b
		ops = append(ops, op{fmt.Sprintf("BindLineage (refused %d)", i), "w", func() { thema.BindLineage(b, rt) }, false})
	}
	c.Shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
	done := func(f func()) chan any {
		ch := make(chan any, 1)
		go func() {
			r, did := hlib.Panics(f)
			if did {
				ch <- r
			} else {
				ch <- nil
			}
		}()
		return ch
	}
	finish := func(o op, ch chan any, how string) {
		select {
		case r := <-ch:
			if r != nil && !o.panic {
				c.Fail("%s panicked (%s): %v", o.name, how, r)
			}
		case <-time.After(20 * time.Second):
			c.Fail("%s did not return (%s): the lock is taken while it is held, or was left held", o.name, how)
		}
		c.Check(free(), "%s returned with the lock held (%s)", o.name, how)
	}
	for _, o := range ops {
		c.Logf("%s", o.name)
		finish(o, done(o.f), "lock free")
	}
	c.Key("%v", l.Vers)
	// with the lock held elsewhere
	k := c.Index
	for rep := 0; rep < 3; rep++ {
		o := ops[(k*3)%len(ops)]
		k++
		if o.mode == "" {
			continue
		}
		c.Logf("%s while the lock is held exclusively", o.name)
		lock()
		ch := done(o.f)
		select {
		case <-ch:
			unlock()
			c.Fail("%s ran while the lock was held exclusively", o.name)
		case <-time.After(120 * time.Millisecond):
		}
		unlock()
		finish(o, ch, "waited")
		if o.mode != "w" {
			continue
		}
		c.Logf("%s while the lock is held shared", o.name)
		rlock()
		ch = done(o.f)
		select {
		case <-ch:
			runlock()
			c.Fail("%s ran while the lock was held shared", o.name)
		case <-time.After(120 * time.Millisecond):
		}
		runlock()
		finish(o, ch, "waited")
	}
}

// ---------------------------------------------------------------- P18
func p18(c *Case) {
	rt := newRT()
	var rec []call
	goLens := c.Intn(2) == 0
	l := genLin(c, versOf(shape(c, 6)), genOpts{defaults: true, lacunas: true, examples: true, join: true})
	var lin thema.Lineage
	if goLens && len(l.Vers) > 1 {
		lin = l.bind(c, rt, thema.ImperativeLenses(l.goLenses(rt, &rec, -1, nil)...))
	} else {
		l.Lenses = true
		lin = l.bind(c, rt)
	}
	all := lin.All()
	// forged instances
	for k, f := range []func(*thema.Instance){
		func(i *thema.Instance) { i.Underlying() }, func(i *thema.Instance) { i.Schema() }, func(i *thema.Instance) { i.Hydrate() }, func(i *thema.Instance) { i.Dehydrate() },
		func(i *thema.Instance) { i.AsSuccessor() }, func(i *thema.Instance) { i.AsPredecessor() }, func(i *thema.Instance) { i.Translate(Ver{}) },
	} {
		r, did := hlib.Panics(func() { f(&thema.Instance{}) })
		c.Check(did, "method %d of a zero Instance did not panic", k)
		c.Check(strings.Contains(fmt.Sprint(r), "not valid"), "method %d of a zero Instance panicked with %v", k, r)
	}
	ft := &thema.TypedInstance[*T0]{Instance: &thema.Instance{}}
	for k, f := range []func(){func() { ft.TypedSchema() }, func() { ft.Value() }, func() { ft.ValueP() }} {
		_, did := hlib.Panics(f)
		c.Check(did, "method %d of a zero TypedInstance did not panic", k)
	}
	// examples
	for i, s := range all {
		ex := s.Examples()
		c.Check(len(ex) == len(l.Ex[i]), "schema %v has %d examples, expected %d", l.Vers[i], len(ex), len(l.Ex[i]))
		for k, d := range l.Ex[i] {
			e := ex[k]
			c.Check(e != nil, "example %q of %v is missing", k, l.Vers[i])
			c.Check(e.Schema() == s, "example %q of %v is an instance of %v", k, l.Vers[i], e.Schema().Version())
			full := Data{}
			for n, v := range d {
				full[n] = v
			}
			for _, f := range l.all(i) {
				if _, has := full[f.Name]; !has && f.def() {
					full[f.Name] = defVal(f.T)
				}
			}
			c.Check(sameData(e.Underlying(), d) || sameData(e.Underlying(), full), "example %q of %v is %s", k, l.Vers[i], show(e.Underlying()))
		}
		// the map is not shared
		for k := range ex {
			delete(ex, k)
		}
		c.Check(len(s.Examples()) == len(l.Ex[i]), "Examples returned the same map again")
	}
	type snap struct {
		inst *thema.Instance
		val  cue.Value
		sch  thema.Schema
		txt  string
	}
	var snaps []snap
	add := func(i *thema.Instance) {
		if i != nil {
			snaps = append(snaps, snap{i, i.Underlying(), i.Schema(), fmt.Sprint(norm(i.Underlying()))})
		}
	}
	type ssnap struct {
		u   cue.Value
		txt string
	}
	var sn []ssnap
	for _, s := range all {
		sn = append(sn, ssnap{s.Underlying(), fmt.Sprint(s.Underlying())})
	}
	lu := lin.Underlying()
	// what is handed out is the caller's to change
	scribble := func() {
		x := lin.All()
		c.Shuffle(len(x), func(a, b int) { x[a], x[b] = x[b], x[a] })
		if c.Intn(2) == 0 {
			x[0] = nil
		}
		_ = append(x[:0], nil)
		for i, s := range lin.All() {
			c.Check(s == all[i], "All returns %v after the caller changed the slice it got", s)
		}
	}
	for n := 0; n < 14; n++ {
		if c.Intn(3) == 0 {
			scribble()
		}
		i := c.Intn(len(all))
		if len(snaps) == 0 || c.Intn(3) == 0 {
			add(mustValidate(c, all[i], val(rt, l.gen(c, i))))
		} else {
			x := snaps[c.Intn(len(snaps))].inst
			switch o := c.Intn(8); o {
			case 0:
				c.Logf("Hydrate")
				add(x.Hydrate())
			case 1:
				c.Logf("Dehydrate")
				add(x.Dehydrate())
			case 2:
				c.Logf("AsSuccessor")
				y, _, _ := x.AsSuccessor()
				add(y)
			case 3:
				c.Logf("AsPredecessor")
				y, _, _ := x.AsPredecessor()
				add(y)
			case 4:
				mux := vmux.NewUntypedMux(all[i], vmux.NewJSONCodec("x.json"))
				c.Logf("mux")
				y, _, _ := mux([]byte(cueLit(norm(x.Underlying()))))
				add(y)
			case 5:
				c.Logf("ValidateAny, IsAppendOnly")
				add(lin.ValidateAny(x.Underlying()))
				thema.IsAppendOnly(lin, lin)
			default:
				c.Logf("Translate from %v to %v", x.Schema().Version(), l.Vers[i])
				y, lac, _ := x.Translate(l.Vers[i])
				add(y)
				if lac != nil {
					ls := lac.AsList()
					txt := fmt.Sprint(ls)
					for k := range ls {
						ls[k] = thema.Lacuna{}
					}
					c.Check(fmt.Sprint(lac.AsList()) == txt, "AsList changed from %s", txt)
				}
			}
			for _, r := range rec {
				add(r.in)
				add(r.out)
			}
			rec = nil
		}
		for k, s := range snaps {
			c.Check(s.inst.Schema() == s.sch, "instance %d changed its schema from %v to %v", k, s.sch.Version(), s.inst.Schema().Version())
			c.Check(s.inst.Underlying() == s.val && fmt.Sprint(norm(s.inst.Underlying())) == s.txt, "instance %d changed its data from %s to %s", k, s.txt, show(s.inst.Underlying()))
		}
	}
	c.Key("%v %v %d", l.Vers, goLens, len(snaps))
	now := lin.All()
	for i, s := range all {
		c.Check(now[i] == s && s.Version() == l.Vers[i] && s.Lineage() == lin && s.Underlying() == sn[i].u && fmt.Sprint(s.Underlying()) == sn[i].txt, "schema %d changed", i)
	}
	c.Check(lin.Underlying() == lu && lin.Name() == l.Name && lin.Runtime() == rt, "the lineage changed")
}

// ---------------------------------------------------------------- P22
func p22(c *Case) {
	rt := newRT()
	type hf struct {
		name, typ string
		opt       bool
		def       any // nil: none
		sub       []hf
		list      bool // of sub
		open      bool // sub may have further fields
	}
	var gen func(depth int) []hf
	gen = func(depth int) []hf {
		var fs []hf
		for n := 1 + c.Intn(4); n > 0; n-- {
			f := hf{name: fmt.Sprintf("f%d%d", depth, len(fs))}
			switch k := c.Intn(13); {
			case k == 10:
				f.typ = "[...(int | *5)]"
			case k == 11:
				f.typ, f.def = `[...{a: int, ...}] | *[{a: 1}]`, []any{Data{"a": 1}}
			case k == 12:
				f.typ = `[...({k: "a", x: int | *1} | {k: "b", y: string | *"s"})]`
			case k == 7:
				f.typ = "[...string]"
			case k == 8:
				f.typ, f.def = `[...string] | *["q", "r"]`, []any{"q", "r"}
			case k == 9 && depth < 2:
				f.sub, f.list, f.opt = gen(depth+1), true, c.Intn(4) == 0
			case k == 0:
				f.typ = "string"
			case k == 1:
				f.typ, f.opt = "string", true
			case k == 2:
				f.typ, f.def = `string | *"foo"`, "foo"
			case k == 3:
				f.typ, f.def = `int | *42`, 42
			case k == 4:
				f.typ, f.def = `*"a" | "b"`, "a"
			case k == 5:
				f.typ, f.def = `bool | *true`, true
			default:
				if depth < 2 {
					f.sub = gen(depth + 1)
					f.opt = c.Intn(4) == 0
					f.open = c.Intn(4) == 0
				} else {
					f.typ = "int"
				}
			}
			fs = append(fs, f)
		}
		return fs
	}
	var render func(fs []hf, ind string) string
	render = func(fs []hf, ind string) string {
		s := ""
		for _, f := range fs {
			o := ""
			if f.opt {
				o = "?"
			}
			if f.list {
				s += fmt.Sprintf("%s%s%s: [...{\n%s%s}]\n", ind, f.name, o, render(f.sub, ind+"  "), ind)
			} else if f.sub != nil {
				dots := ""
				if f.open {
					dots = ind + "  ...\n"
				}
				s += fmt.Sprintf("%s%s%s: {\n%s%s%s}\n", ind, f.name, o, render(f.sub, ind+"  "), dots, ind)
			} else {
				s += fmt.Sprintf("%s%s%s: %s\n", ind, f.name, o, f.typ)
			}
		}
		return s
	}
	// the struct that stands for itself when absent
	var defaults func(fs []hf) (Data, bool)
	defaults = func(fs []hf) (Data, bool) {
		d := Data{}
		for _, f := range fs {
			switch {
			case f.opt:
			case f.list:
				return nil, false
			case f.sub != nil:
				x, ok := defaults(f.sub)
				if !ok {
					return nil, false
				}
				d[f.name] = x
			case f.def == nil:
				return nil, false
			default:
				d[f.name] = f.def
			}
		}
		return d, true
	}
	// structs without data may be there or not
	var strip func(x any) any
	strip = func(x any) any {
		if l, ok := x.([]any); ok {
			o := []any{}
			for _, v := range l {
				o = append(o, strip(v))
			}
			return o
		}
		m, ok := x.(map[string]any)
		if !ok {
			return x
		}
		o := map[string]any{}
		for k, v := range m {
			v = strip(v)
			if sub, ok := v.(map[string]any); ok && len(sub) == 0 {
				continue
			}
			o[k] = v
		}
		return o
	}
	// data, hydrated, dehydrated
	var data func(fs []hf) (Data, Data, Data)
	data = func(fs []hf) (Data, Data, Data) {
		d, h, e := Data{}, Data{}, Data{}
		for _, f := range fs {
			if f.list {
				if f.opt && c.Intn(2) == 0 {
					continue
				}
				ld, lh, le := []any{}, []any{}, []any{}
				for n := c.Intn(4); n > 0; n-- {
					a, b, x := data(f.sub)
					ld, lh, le = append(ld, a), append(lh, b), append(le, x)
				}
				d[f.name], h[f.name], e[f.name] = ld, lh, le
				continue
			}
			if f.sub != nil {
				if f.opt && c.Intn(2) == 0 {
					continue
				}
				a, b, x := data(f.sub)
				if full, ok := defaults(f.sub); ok && !f.opt && c.Intn(2) == 0 {
					h[f.name] = full
					continue
				}
				if f.open {
					for n := c.Intn(3); n > 0; n-- {
						k := fmt.Sprintf("extra%d", n)
						var v any = pick(c, "x", "", "foo")
						switch c.Intn(3) {
						case 0:
							v = Data{"in": 1 + c.Intn(9), "out": Data{"z": "z"}}
						case 1:
							v = []any{1, 5}
						}
						a[k], b[k], x[k] = v, v, v
					}
				}
				d[f.name], h[f.name], e[f.name] = a, b, x
				continue
			}
			if strings.Contains(f.typ, "{k: ") {
				ld, lh, le := []any{}, []any{}, []any{}
				for n := c.Intn(4); n > 0; n-- {
					k, fld, def, other := "a", "x", any(1), any(7)
					if c.Intn(2) == 0 {
						k, fld, def, other = "b", "y", "s", "t"
					}
					a, b, x := Data{"k": k}, Data{"k": k}, Data{"k": k}
					switch c.Intn(3) {
					case 0:
						b[fld] = def
					case 1:
						a[fld], b[fld] = def, def
					default:
						a[fld], b[fld], x[fld] = other, other, other
					}
					ld, lh, le = append(ld, a), append(lh, b), append(le, x)
				}
				d[f.name], h[f.name], e[f.name] = ld, lh, le
				continue
			}
			var v any
			switch {
			case f.def != nil && c.Intn(3) == 0:
				h[f.name] = f.def
				continue
			case f.def != nil && c.Intn(2) == 0:
				v = f.def
			case f.opt && c.Intn(2) == 0:
				continue
			case f.typ == `int | *42` || f.typ == "int":
				v = c.Intn(100) + 43
			case f.typ == `*"a" | "b"`:
				v = "b"
			case strings.HasPrefix(f.typ, "[...{a"):
				l := []any{}
				for n := c.Intn(3); n > 0; n-- {
					x := Data{"a": 1 + c.Intn(2)}
					if c.Intn(2) == 0 {
						x["b"] = 2
					}
					l = append(l, x)
				}
				v = l
			case strings.HasPrefix(f.typ, "[...(int"):
				l := []any{}
				for n := c.Intn(4); n > 0; n-- {
					l = append(l, 4+c.Intn(3))
				}
				v = l
			case strings.HasPrefix(f.typ, "["):
				l := []any{}
				for n := c.Intn(4); n > 0; n-- {
					l = append(l, pick(c, "q", "r", ""))
				}
				v = l
			case strings.HasPrefix(f.typ, "bool"):
				v = false
			default:
				v = pick(c, "x", "bar", "")
			}
			d[f.name], h[f.name] = v, v
			if f.def == nil || !reflect.DeepEqual(v, f.def) {
				e[f.name] = v
			}
		}
		return d, h, e
	}
	fs := gen(0)
	src := "name: \"h\"\nschemas: [{version: [0, 0], schema: {\n" + render(fs, "  ") + "}}]\nlenses: []\n"
	lin, err := thema.BindLineage(compile(rt, src), rt)
	c.Logf("%s", src)
	c.Check(err == nil, "BindLineage: %v", err)
	sch := lin.First()
	for n := 0; n < 4; n++ {
		d, h, e := data(fs)
		c.Logf("%s", cueLit(d))
		c.Key("%s", cueLit(d))
		v := val(rt, d)
		inst := mustValidate(c, sch, v)
		hi, di := inst.Hydrate(), inst.Dehydrate()
		c.Check(inst.Underlying() == v && inst.Schema() == sch, "the receiver changed")
		for k, x := range []*thema.Instance{hi, di} {
			c.Check(x != nil && x.Schema() == sch, "result %d is not an instance of the same schema", k)
			_, err := sch.Validate(x.Underlying())
			c.Check(err == nil, "result %d (%v) is not valid: %v", k, x.Underlying(), err)
		}
		c.Check(sameData(hi.Underlying(), h), "hydrated: %s, expected %s", show(hi.Underlying()), cueLit(h))
		c.Check(sameData(di.Underlying(), e), "dehydrated: %s, expected %s", show(di.Underlying()), cueLit(e))
		hd, dh := hi.Dehydrate(), di.Hydrate()
		c.Check(sameData(hd.Underlying(), e) || reflect.DeepEqual(strip(norm(hd.Underlying())), strip(norm(e))), "hydrated and dehydrated: %s, expected %s", show(hd.Underlying()), cueLit(e))
		c.Check(sameData(dh.Underlying(), h), "dehydrated and hydrated: %s, expected %s", show(dh.Underlying()), cueLit(h))
	}
}
