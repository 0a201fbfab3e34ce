package "github.com/grafana/thema"

// errors.Is follows Unwrap: justified by the contracts on the Unwrap methods below
onbox *onesidederr {
  assumes errIs(this, terrors.ErrInvalidData)
}
onbox *twosidederr {
  assumes errIs(this, terrors.ErrInvalidData)
}
onbox *emptydisjunction {
  assumes errIs(this, terrors.ErrInvalidData)
}
onbox validationFailure {
  assumes errIs(this, terrors.ErrInvalidData)
}
func (e *onesidederr) Unwrap() (r) {
  safe [P02]
  ensures [P02] r == terrors.ErrInvalidData
}
func (e *twosidederr) Unwrap() (r) {
  safe [P02]
  ensures [P02] r == terrors.ErrInvalidData
}
func (e *emptydisjunction) Unwrap() (r) {
  safe [P02]
  ensures [P02] r == terrors.ErrInvalidData
}
func (vf validationFailure) Unwrap() (r) {
  safe [P02]
  ensures [P02] r == terrors.ErrInvalidData
}

fn isCue(p token.Pos) bool {
  strings.HasSuffix(p.Filename(), ".cue")
}
helper splitTokens(poslist) (schpos, datapos) {
  loopinv (k int, s []token.Pos, d []token.Pos) len(s) + len(d) == k
  loopinv (s []token.Pos) forall(i, 0, len(s), isCue(s[i]) && exists(j, 0, len(poslist), poslist[j] == s[i]))
  loopinv (d []token.Pos) forall(i, 0, len(d), !isCue(d[i]) && exists(j, 0, len(poslist), poslist[j] == d[i]))
  loopinv (k int, s []token.Pos) forall(j, 0, k, implies(isCue(poslist[j]), exists(i, 0, len(s), s[i] == poslist[j])))
  loopinv (k int, d []token.Pos) forall(j, 0, k, implies(!isCue(poslist[j]), exists(i, 0, len(d), d[i] == poslist[j])))
  ensures [P02] count: len(schpos) + len(datapos) == len(poslist)
  ensures [P02] schema: forall(i, 0, len(schpos), isCue(schpos[i]) && exists(j, 0, len(poslist), poslist[j] == schpos[i]))
  ensures [P02] data: forall(i, 0, len(datapos), !isCue(datapos[i]) && exists(j, 0, len(poslist), poslist[j] == datapos[i]))
  ensures [P02] all: forall(j, 0, len(poslist), ite(isCue(poslist[j]), exists(i, 0, len(schpos), schpos[i] == poslist[j]), exists(i, 0, len(datapos), datapos[i] == poslist[j])))
}
// s and d: as many positions as in l, those in .cue files and the others
fn partition(s []token.Pos, d []token.Pos, l []token.Pos) bool {
  (allocated(s) || baseof(s) == 0) && (allocated(d) || baseof(d) == 0)
  && len(s) + len(d) == len(l)
  && forall(i, 0, len(s), isCue(s[i])) && forall(i, 0, len(d), !isCue(d[i]))
}
fn describes(e error, c cerrors.Error) bool {
  typeis(e, *onesidederr) && allocated(as(e, *onesidederr)) && partition(as(e, *onesidederr).schpos, as(e, *onesidederr).datapos, c.InputPositions())
  || typeis(e, *twosidederr) && allocated(as(e, *twosidederr)) && partition(as(e, *twosidederr).schpos, as(e, *twosidederr).datapos, c.InputPositions())
}
helper humanReadableCUEType(value) (r) {
}
helper mungeValidateErr(err, sch) (r) {
  loopinv [P02] (k int, vf validationFailure) forall(i, 0, len(vf), exists(j, 0, k, describes(vf[i], cerrors.Errors(err)[j])))
  ensures [P02] positions: typeis(r, validationFailure) && forall(i, 0, len(as(r, validationFailure)), exists(j, 0, len(cerrors.Errors(err)), describes(as(r, validationFailure)[i], cerrors.Errors(err)[j])))
  requires err != nil && typeis(err, cerrors.Error)
  requires ISch(sch)
  ensures r != nil
  ensures [P02 P09 P13 P14] classified: errIs(r, terrors.ErrInvalidData)
}

interface Schema.Underlying() (v) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  requires ISch(this)
  ensures v == base(this).ref
}
interface Schema.Validate(data) (inst, err) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  safe [P02]
  requires ISch(this)
  requires [P17] unlocked: free(base(this).lin.rt)
  ensures [P17] released: free(base(this).lin.rt)
  under [P17] R base(this).lin.rt : Unify, Validate, Subsume, FillPath, Decode
  ensures [P01] accepts: iff(err == nil, accepts(base(this), data))
  ensures iff(err == nil, accepts(base(this), data))
  ensures iff(err == nil, inst != nil)
  ensures implies(err == nil, InstOK(inst) && fresh(inst) && inst.raw == data && ischema(inst) == base(this))
  ensures [P02 P09 P13 P14] classified: implies(err != nil, errIs(err, terrors.ErrInvalidData))
}
