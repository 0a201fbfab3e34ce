package "github.com/grafana/thema"

fn hasfield(v cue.Value, name string) bool {
  field(v, name).Exists() && field(v, name).IsConcrete()
}
func (ml *maybeLineage) checkExists(cfg) (err) {
  safe [P06]
  requires allocated(ml)
  ensures iff(err == nil, ml.raw.Exists())
  ensures [P06] exists: iff(err == nil, ml.raw.Exists())
  ensures [P06] class: implies(err != nil, errIs(err, terrors.ErrValueNotExist))
}
fn shaped(raw cue.Value, uni cue.Value) bool {
  hasfield(raw, "name") && hasfield(raw, "schemas") && uni.Validate(cue.Final()) == nil
}
func (ml *maybeLineage) checkLineageShape(cfg) (err) {
  safe [P06]
  requires allocated(ml)
  loopinv (k int) implies(k >= 1, hasfield(ml.raw, "name")) && implies(k >= 2, hasfield(ml.raw, "schemas"))
  ensures iff(err == nil, shaped(ml.raw, ml.uni))
  ensures [P06] shape: iff(err == nil, shaped(ml.raw, ml.uni))
  ensures [P06] missing: implies(!field(ml.raw, "name").Exists() || hasfield(ml.raw, "name") && !field(ml.raw, "schemas").Exists(), errIs(err, terrors.ErrValueNotALineage))
  ensures [P06] abstract: implies(field(ml.raw, "name").Exists() && !hasfield(ml.raw, "name") || hasfield(ml.raw, "name") && field(ml.raw, "schemas").Exists() && !hasfield(ml.raw, "schemas"), errIs(err, terrors.ErrInvalidLineage))
  ensures [P06] invalid: implies(hasfield(ml.raw, "name") && hasfield(ml.raw, "schemas") && err != nil, errIs(err, terrors.ErrInvalidLineage))
}
fn valid(v cue.Value) bool {
  v.Validate(cue.Concrete(false)) == nil
}
func (ml *maybeLineage) checkNativeValidity(cfg) (err) {
  safe [P06]
  requires allocated(ml)
  // what #Lineage says: a valid value unified with it has a list of at least one
  // schema, each with a version that is a list of two numbers
  assumes implies(err == nil && unified(ml.uni), linshape(ml.uni))
  ensures iff(err == nil, valid(ml.raw) && valid(ml.uni))
  ensures [P06] valid: iff(err == nil, valid(ml.raw) && valid(ml.uni))
  ensures [P06] class: implies(err != nil, errIs(err, terrors.ErrInvalidLineage))
}
