import thema "github.com/grafana/thema"

package "github.com/grafana/thema/vmux"

interface Decoder.Decode(ctx, b) (v, err) {
  noimpl
  record dec
}
helper allvstr(sch) (s) {
  requires ISch(sch)
  loopinv (s thema.Schema) s == nil || typeis(s, *thema.schemaDef) && SchOK(as(s, *thema.schemaDef)) && as(s, *thema.schemaDef).lin == base(sch).lin
}
helper latest(lin) (s) {
  requires typeis(lin, *thema.baseLineage) && LinOK(linof(lin))
  ensures typeis(s, *thema.schemaDef) && SchOK(as(s, *thema.schemaDef)) && as(s, *thema.schemaDef) == linof(lin).allsch[len(linof(lin).allsch)-1]
}
// schema i of the lineage is not the mux's own and accepts the data
fn other(s thema.Schema, i int, data cue.Value) bool {
  base(s).lin.allsch[i] != base(s) && accepts(base(s).lin.allsch[i], data)
}
func NewUntypedMux(sch, dec) (m) {
  safe [P13]
  requires ISch(sch) && LensOK(base(sch).lin) && dec != nil
  returns closure(b) (inst, lac, err) {
    frame [P18]
    record umux
    requires ISch(sch) && LensOK(base(sch).lin) && dec != nil
    requires [P17] unlocked: free(base(sch).lin.rt)
    ensures [P17] released: free(base(sch).lin.rt)
    modifies rec:dec, rec:trans, rec:mapper
    loopinv (s thema.Schema) s == nil || typeis(s, *thema.schemaDef) && SchOK(as(s, *thema.schemaDef)) && as(s, *thema.schemaDef).lin == base(sch).lin
    loopinv (s thema.Schema) implies(s == nil, forall(i, 0, len(base(sch).lin.allsch), !other(sch, i, rec(dec, v))))
    loopinv (s thema.Schema) implies(s != nil, exists(i, 0, len(base(sch).lin.allsch), base(sch).lin.allsch[i] == as(s, *thema.schemaDef) && forall(j, i+1, len(base(sch).lin.allsch), !other(sch, j, rec(dec, v)))))
    ensures [P13] once: rec(dec, n) == old(rec(dec, n)) + 1 && rec(dec, b) == b && rec(dec, this) == dec
    ensures [P13] undecodable: implies(rec(dec, err) != nil, inst == nil && lac == nil && err == rec(dec, err) && recsame(trans))
    ensures [P13] own: implies(rec(dec, err) == nil && accepts(base(sch), rec(dec, v)), err == nil && lac == nil && InstOK(inst) && ischema(inst) == base(sch) && inst.raw == rec(dec, v) && recsame(trans))
    ensures [P13] nomatch: implies(rec(dec, err) == nil && !accepts(base(sch), rec(dec, v)) && forall(i, 0, len(base(sch).lin.allsch), !other(sch, i, rec(dec, v))), inst == nil && lac == nil && errIs(err, terrors.ErrInvalidData) && recsame(trans))
    ensures [P13] newest: implies(rec(dec, err) == nil && !accepts(base(sch), rec(dec, v)), forall(i, 0, len(base(sch).lin.allsch), implies(other(sch, i, rec(dec, v)) && forall(j, i+1, len(base(sch).lin.allsch), !other(sch, j, rec(dec, v))),
      rec(trans, n) == old(rec(trans, n)) + 1 && rec(trans, to) == base(sch).v && InstOK(rec(trans, i)) && ischema(rec(trans, i)) == base(sch).lin.allsch[i] && rec(trans, i).raw == rec(dec, v)
      && inst == rec(trans, inst) && lac == rec(trans, lac) && err == rec(trans, err))))
    ensures iff(err == nil, inst != nil)
    ensures implies(err == nil, InstOK(inst) && ischema(inst) == base(sch))
    ensures [P13] ownversion: implies(err == nil, InstOK(inst) && ischema(inst) == base(sch))
  }
}

// --- typed, byte and value muxes
interface Encoder.Encode(v) (r, err) {
  noimpl
  record enc
}
pred TypedInst(t *thema.TypedInstance, s thema.TypedSchema) {
  allocated(t) && InstOK(t.Instance) && t.tsch == s && typeis(s, *thema.unaryTypedSchema) && TypedOK(as(s, *thema.unaryTypedSchema)) && t.Instance.sch == as(s, *thema.unaryTypedSchema).Schema
}
fn tbase(s thema.TypedSchema) *thema.schemaDef {
  as(as(s, *thema.unaryTypedSchema).Schema, *thema.schemaDef)
}
fn tother(s thema.TypedSchema, i int, data cue.Value) bool {
  tbase(s).lin.allsch[i] != tbase(s) && accepts(tbase(s).lin.allsch[i], data)
}
func NewTypedMux(sch, dec) (m) {
  safe [P14]
  requires typeis(sch, *thema.unaryTypedSchema) && TypedOK(as(sch, *thema.unaryTypedSchema)) && LensOK(tbase(sch).lin) && dec != nil
  returns closure(b) (inst, lac, err) {
    frame [P18]
    record tmux
    requires typeis(sch, *thema.unaryTypedSchema) && TypedOK(as(sch, *thema.unaryTypedSchema)) && LensOK(tbase(sch).lin) && dec != nil
    requires [P17] unlocked: free(tbase(sch).lin.rt)
    ensures [P17] released: free(tbase(sch).lin.rt)
    modifies rec:dec, rec:trans, rec:mapper
    loopinv (s thema.Schema) s == nil || typeis(s, *thema.schemaDef) && SchOK(as(s, *thema.schemaDef)) && as(s, *thema.schemaDef).lin == tbase(sch).lin
    loopinv (s thema.Schema) implies(s == nil, forall(i, 0, len(tbase(sch).lin.allsch), !tother(sch, i, rec(dec, v))))
    loopinv (s thema.Schema) implies(s != nil, exists(i, 0, len(tbase(sch).lin.allsch), tbase(sch).lin.allsch[i] == as(s, *thema.schemaDef) && forall(j, i+1, len(tbase(sch).lin.allsch), !tother(sch, j, rec(dec, v)))))
    ensures [P14] once: rec(dec, n) == old(rec(dec, n)) + 1 && rec(dec, b) == b && rec(dec, this) == dec
    ensures [P14] undecodable: implies(rec(dec, err) != nil, inst == nil && lac == nil && err == rec(dec, err) && recsame(trans))
    ensures [P14] own: implies(rec(dec, err) == nil && accepts(tbase(sch), rec(dec, v)), err == nil && lac == nil && TypedInst(inst, sch) && inst.Instance.raw == rec(dec, v) && recsame(trans))
    ensures [P14] nomatch: implies(rec(dec, err) == nil && !accepts(tbase(sch), rec(dec, v)) && forall(i, 0, len(tbase(sch).lin.allsch), !tother(sch, i, rec(dec, v))), inst == nil && lac == nil && errIs(err, terrors.ErrInvalidData) && recsame(trans))
    ensures [P14] newest: implies(rec(dec, err) == nil && !accepts(tbase(sch), rec(dec, v)), forall(i, 0, len(tbase(sch).lin.allsch), implies(tother(sch, i, rec(dec, v)) && forall(j, i+1, len(tbase(sch).lin.allsch), !tother(sch, j, rec(dec, v))),
      rec(trans, n) == old(rec(trans, n)) + 1 && rec(trans, to) == tbase(sch).v && InstOK(rec(trans, i)) && ischema(rec(trans, i)) == tbase(sch).lin.allsch[i] && rec(trans, i).raw == rec(dec, v)
      && ite(rec(trans, err) == nil, err == nil && TypedInst(inst, sch) && inst.Instance == rec(trans, inst) && lac == rec(trans, lac), inst == nil && err == rec(trans, err) && lac == nil))))
    ensures iff(err == nil, inst != nil)
    ensures implies(err == nil, TypedInst(inst, sch))
    ensures [P14] typed: implies(err == nil, TypedInst(inst, sch)) && implies(err != nil, inst == nil)
  }
}
func NewByteMux(sch, codec) (m) {
  safe [P14]
  requires ISch(sch) && LensOK(base(sch).lin) && codec != nil
  returns closure(b) (r, lac, err) {
    frame [P18]
    requires ISch(sch) && LensOK(base(sch).lin) && codec != nil
    requires [P17] unlocked: free(base(sch).lin.rt)
    ensures [P17] released: free(base(sch).lin.rt)
    modifies rec:dec, rec:trans, rec:mapper, rec:umux, rec:enc
    ensures [P14] once: rec(umux, n) == old(rec(umux, n)) + 1 && rec(umux, b) == b && lac == rec(umux, lac)
    ensures [P14] failed: implies(rec(umux, err) != nil, r == nil && err == rec(umux, err) && recsame(enc))
    ensures [P14] encoded: implies(rec(umux, err) == nil, rec(enc, n) == old(rec(enc, n)) + 1 && rec(enc, this) == codec && rec(enc, v) == rec(umux, inst).raw && r == rec(enc, r) && err == rec(enc, err))
  }
}
func NewValueMux(sch, dec) (m) {
  safe [P14]
  requires typeis(sch, *thema.unaryTypedSchema) && TypedOK(as(sch, *thema.unaryTypedSchema)) && LensOK(tbase(sch).lin) && dec != nil
  returns closure(b) (t, lac, err) {
    frame [P18]
    requires typeis(sch, *thema.unaryTypedSchema) && TypedOK(as(sch, *thema.unaryTypedSchema)) && LensOK(tbase(sch).lin) && dec != nil
    requires [P17] unlocked: free(tbase(sch).lin.rt)
    ensures [P17] released: free(tbase(sch).lin.rt)
    modifies rec:dec, rec:trans, rec:mapper, rec:tmux, rec:value
    ensures [P14] once: rec(tmux, n) == old(rec(tmux, n)) + 1 && rec(tmux, b) == b && lac == rec(tmux, lac)
    ensures [P14] failed: implies(rec(tmux, err) != nil, err == rec(tmux, err) && recsame(value))
    ensures [P14] value: implies(rec(tmux, err) == nil, rec(value, n) == old(rec(value, n)) + 1 && rec(value, inst) == rec(tmux, inst) && t == rec(value, t) && err == rec(value, err))
  }
}
