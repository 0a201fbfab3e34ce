package "github.com/grafana/thema"

// a typed schema made by BindType: over a schema of a bound lineage
fn tsch(t TypedSchema) *unaryTypedSchema {
  as(t, *unaryTypedSchema)
}
pred TypedOK(t *unaryTypedSchema) {
  t.newfn != nil &&
  allocated(t) && typeis(t.Schema, *schemaDef) && SchOK(as(t.Schema, *schemaDef))
}
helper schemaIs(s1, s2) (r) {
  requires typeis(s1, *schemaDef) && typeis(s2, *schemaDef)
  ensures iff(r, s1 == s2)
}
helper (sch *unaryTypedSchema) is(osch) (r) {
  requires TypedOK(sch) && typeis(osch, *schemaDef)
  ensures iff(r, sch.Schema == osch)
}
func BindInstanceType(inst, tsch) (r, err) {
  frame [P18]
  safe [P16]
  requires InstWF(inst) && typeis(tsch, *unaryTypedSchema) && TypedOK(as(tsch, *unaryTypedSchema))
  panics when !inst.valid
  ensures iff(err == nil, r != nil)
  ensures implies(err == nil, fresh(r) && r.Instance == inst && r.tsch == tsch)
  ensures iff(err == nil, as(tsch, *unaryTypedSchema).Schema == inst.sch)
  ensures [P16] same: iff(err == nil, as(tsch, *unaryTypedSchema).Schema == inst.sch)
  ensures [P16] pairs: implies(err == nil, r != nil && r.Instance == inst && r.tsch == tsch) && implies(err != nil, r == nil)
}
interface TypedSchema.ValidateTyped(data) (r, err) {
  frame [P18]
  for *unaryTypedSchema
  safe [P16]
  requires typeis(this, *unaryTypedSchema) && TypedOK(as(this, *unaryTypedSchema))
  requires [P17] unlocked: free(tbase(this).lin.rt)
  ensures [P17] released: free(tbase(this).lin.rt)
  ensures iff(err == nil, accepts(as(as(this, *unaryTypedSchema).Schema, *schemaDef), data)) && iff(err == nil, r != nil)
  ensures implies(err == nil, fresh(r) && InstOK(r.Instance) && r.Instance.sch == as(this, *unaryTypedSchema).Schema && r.Instance.raw == data && r.tsch == this)
  ensures [P13 P14] class: implies(err != nil, errIs(err, terrors.ErrInvalidData))
  ensures [P16] accepts: iff(err == nil, accepts(as(as(this, *unaryTypedSchema).Schema, *schemaDef), data))
  ensures [P16] pairs: implies(err == nil, r != nil && InstOK(r.Instance) && r.Instance.sch == as(this, *unaryTypedSchema).Schema && r.Instance.raw == data && r.tsch == this) && implies(err != nil, r == nil)
}
// what AssignableTo decides (internal assignability rules: compared by walking Go types by reflection)
ghost func fitsgo(cue.Value, any) bool
fn isassignable(s *schemaDef, t any) bool {
  fitsgo(schdef(s.ref), t)
}
helper assignable(sch, T) (err) {
  trusted "walks the Go type by reflection; AssignableTo's and BindType's contracts only say that its verdict is respected"
  maypanic
  ensures iff(err == nil, fitsgo(sch, T))
}
func AssignableTo(sch, T) (err) {
  frame [P18]
  requires ISch(sch)
  requires [P17] unlocked: free(base(sch).lin.rt)
  ensures [P17] released: free(base(sch).lin.rt)
  under [P17] R base(sch).lin.rt : assignable, Unify, Validate, Decode
  ensures iff(err == nil, isassignable(base(sch), T))
}
extern pure (cerrors.Error).Error(e) (s)
extern cerrors.Append(a, b) (r) {
  ensures implies(b != nil, r != nil && len(cerrors.Errors(r)) > 0)
}
axiom forall(e, error, implies(e == nil, len(cerrors.Errors(e)) == 0))
fn harmless(e cerrors.Error) bool {
  strings.Contains(e.Error(), "cannot convert non-concrete")
}
func BindType(sch, t) (r, err) {
  safe [P16]
  requires typeis(sch, *schemaDef) && SchOK(as(sch, *schemaDef))
  requires [P17] unlocked: free(as(sch, *schemaDef).lin.rt)
  ensures [P17] released: free(as(sch, *schemaDef).lin.rt)
  returns closure() (v) at as(r, *unaryTypedSchema).newfn when r != nil {
    requires typeis(sch, *schemaDef) && SchOK(as(sch, *schemaDef))
    requires [P17] unlocked: free(as(sch, *schemaDef).lin.rt)
    ensures [P17] released: free(as(sch, *schemaDef).lin.rt)
    under [P17] R as(sch, *schemaDef).lin.rt : Decode
  }
  loopinv (k int, actual cerrors.Error, l []cerrors.Error) 0 <= k && k <= len(l) && iff(actual == nil, forall(i, 0, k, harmless(l[i]))) && implies(actual != nil, len(cerrors.Errors(actual)) > 0)
  ensures iff(err == nil, r != nil)
  ensures implies(err == nil, typeis(r, *unaryTypedSchema) && fresh(as(r, *unaryTypedSchema)) && TypedOK(as(r, *unaryTypedSchema)) && as(r, *unaryTypedSchema).Schema == sch)
  ensures [P16] derived: implies(err == nil, typeis(r, *unaryTypedSchema) && as(r, *unaryTypedSchema).Schema == sch && as(r, *unaryTypedSchema).newfn != nil)
  ensures [P16] assignable: implies(!isassignable(as(sch, *schemaDef), t), err != nil && r == nil)
  ensures [P16] decodes: implies(err == nil, schdef(as(sch, *schemaDef).ref).Decode(t) == nil || forall(i, 0, len(cerrors.Errors(schdef(as(sch, *schemaDef).ref).Decode(t))), harmless(cerrors.Errors(schdef(as(sch, *schemaDef).ref).Decode(t))[i])))
  ensures [P16] accepted: implies(isassignable(as(sch, *schemaDef), t) && schdef(as(sch, *schemaDef).ref).Decode(t) == nil, err == nil)
}
funcfield unaryTypedSchema.newfn() (r) {
  requires [P17] unlocked: free(base(owner.Schema).lin.rt)
  ensures [P17] released: free(base(owner.Schema).lin.rt)
}
interface TypedSchema.NewT() (r) {
  frame [P18]
  for *unaryTypedSchema
  requires typeis(this, *unaryTypedSchema) && TypedOK(as(this, *unaryTypedSchema))
  requires [P17] unlocked: free(tbase(this).lin.rt)
  ensures [P17] released: free(tbase(this).lin.rt)
}
// a typed instance in the hands of a caller
pred TInstWF(t *TypedInstance) {
  allocated(t) && InstWF(t.Instance) && typeis(t.tsch, *unaryTypedSchema) && TypedOK(as(t.tsch, *unaryTypedSchema))
}
func (inst *TypedInstance) TypedSchema() (s) {
  frame [P18]
  safe [P16]
  requires TInstWF(inst)
  panics when !inst.Instance.valid
  ensures [P16] own: s == inst.tsch
}
func (inst *TypedInstance) Value() (t, err) {
  frame [P18]
  record value from vmux
  requires TInstWF(inst)
  requires [P17] unlocked: free(tbase(inst.tsch).lin.rt)
  ensures [P17] released: free(tbase(inst.tsch).lin.rt)
  panics when !inst.Instance.valid
}
