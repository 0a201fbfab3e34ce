import cuejson "cuelang.org/go/pkg/encoding/json"

package "github.com/grafana/thema"

extern pure cuejson.Marshal(v) (s, err)
extern pure cerrors.Details(err, c) (s)

// an Instance in the hands of a caller: made by this package, or forged and not valid
pred InstWF(i *Instance) {
  allocated(i) && implies(i.valid, typeis(i.sch, *schemaDef) && SchOK(as(i.sch, *schemaDef)))
}
fn ilin(i *Instance) *baseLineage {
  ischema(i).lin
}
fn hasv(lin *baseLineage, v SyntacticVersion) bool {
  exists(k, 0, len(lin.allv), lin.allv[k] == v)
}
fn golens(lin *baseLineage) bool {
  len(lin.lensmap) > 0
}
fn lensfor(lin *baseLineage, from SyntacticVersion, to SyntacticVersion) ImperativeLens {
  lin.lensmap[lensID{From: from, To: to}]
}
// the lenses a lineage with Go lenses was bound with
pred LensOK(lin *baseLineage) {
  implies(golens(lin), forall(i, 1, len(lin.allsch), lensfor(lin, lin.allsch[i].v, lin.allsch[i-1].v).Mapper != nil
     && implies(lin.allsch[i].v[0] != lin.allsch[i-1].v[0], lensfor(lin, lin.allsch[i-1].v, lin.allsch[i].v).Mapper != nil)))
}

helper (i *Instance) check() () {
  requires allocated(i)
  panics when !i.valid
}
func (i *Instance) Underlying() (v) {
  frame [P18]
  safe [P18]
  requires InstWF(i)
  panics when !i.valid
  ensures v == i.raw
  ensures [P18] own: v == i.raw
}
func (i *Instance) Schema() (s) {
  frame [P18]
  safe [P18]
  requires InstWF(i)
  panics when !i.valid
  ensures s == i.sch
  ensures [P18] own: s == i.sch
}
interface Lineage.Underlying() (v) {
  frame [P18]
  for *baseLineage
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  ensures v == linof(this).uni
  ensures [P06] unified: v == linof(this).uni
}
interface Lineage.Runtime() (rt) {
  frame [P18]
  for *baseLineage
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  ensures rt == linof(this).rt
}
interface Lineage.Name() (s) {
  frame [P18]
  for *baseLineage
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  ensures s == linof(this).name
  ensures [P06] name: s == linof(this).name
}

// what the CUE function #Translate returns
ghost func translated(cue.Value, cue.Value, SyntacticVersion, SyntacticVersion, cue.Value) cue.Value
func (ca cueArgs) call(path, rt) (v, err) {
  maypanic
  requires [P17] rt != nil
  requires [P17] unlocked: free(rt)
  ensures [P17] released: free(rt)
  under [P17] W rt : FillPath, Unify
  under [P17] R rt : LookupPath, Validate, Decode
  assumes implies(path == "#Translate", err == nil && v == translated(rt.val, as(ca["inst"], cue.Value), as(ca["to"], SyntacticVersion), as(ca["from"], SyntacticVersion), as(ca["lin"], cue.Value)))
}
fn cueout(i *Instance, to SyntacticVersion) cue.Value {
  translated(ilin(i).rt.val, i.raw, to, ischema(i).v, ilin(i).uni)
}
fn cueres(i *Instance, to SyntacticVersion) cue.Value {
  res(0, cueout(i, to).LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default())
}
helper invalidLens(err, class) (r) {
  requires err != nil && class != nil
  ensures r != nil
  ensures errIs(r, class) && errIs(r, terrors.ErrInvalidLens)
  ensures forall(t, error, implies(errIs(err, t), errIs(r, t)))
}
func (i *Instance) Translate(to) (inst, lac, err) {
  frame [P18]
  record trans from vmux
  safe [P09 P10]
  requires InstWF(i)
  requires LensOK(ilin(i))
  requires [P17] unlocked: implies(i.valid, free(ilin(i).rt))
  ensures [P17] released: implies(i.valid, free(ilin(i).rt))
  panics when !i.valid
  maypanicif !hasv(ilin(i), to)
  modifies rec:mapper
  ensures iff(err == nil, inst != nil)
  ensures implies(err == nil, InstOK(inst) && ilin(inst) == ilin(i) && ischema(inst).v == to && hasv(ilin(i), to))
  ensures [P09] target: implies(err == nil, InstOK(inst) && ilin(inst) == ilin(i) && ischema(inst).v == to && hasv(ilin(i), to))
  ensures [P09] class: implies(err != nil, inst == nil && lac == nil && errIs(err, terrors.ErrInvalidLens))
  ensures [P09] valid: implies(err == nil && !golens(ilin(i)), accepts(ischema(inst), inst.raw) && lac != nil)
  ensures [P23] lacunas: implies(err == nil && !golens(ilin(i)) && decodeErr(cueout(i, to).LookupPath(cue.MakePath(cue.Str("lacunas"))), multiTranslationLacunas) == nil,
    typeis(lac, multiTranslationLacunas) && decodedinto(as(lac, multiTranslationLacunas), cueout(i, to).LookupPath(cue.MakePath(cue.Str("lacunas")))))
  ensures [P09 P19] data: implies(err == nil && !golens(ilin(i)), inst.raw == cueres(i, to))
  ensures [P09] failed: implies(!golens(ilin(i)) && cueout(i, to).Err() != nil, err != nil)
  ensures [P09] incomplete: implies(!golens(ilin(i)) && cueout(i, to).Err() == nil && res(1, cuejson.Marshal(cueres(i, to))) != nil, err != nil && errIs(err, terrors.ErrLensIncomplete))
  ensures [P09] rejected: implies(!golens(ilin(i)) && cueout(i, to).Err() == nil && res(1, cuejson.Marshal(cueres(i, to))) == nil,
    forall(k, 0, len(ilin(i).allv), implies(ilin(i).allv[k] == to, ite(accepts(ilin(i).allsch[k], cueres(i, to)), err == nil && inst.raw == cueres(i, to), errIs(err, terrors.ErrLensResultIsInvalidData) && errIs(err, terrors.ErrInvalidData)))))
  ensures [P10] same: implies(golens(ilin(i)) && to == ischema(i).v, err == nil && inst == i && recsame(mapper))
  ensures [P10 P19] backward: implies(golens(ilin(i)) && err == nil && less(to, ischema(i).v), backto(i, to) && inst == rec(mapper, r, ischema(inst)))
  ensures [P10 P19] forward: implies(golens(ilin(i)) && err == nil && less(ischema(i).v, to), upto(i, to) && majdata(i, to[0], inst.raw))
  ensures [P10] stopped: implies(golens(ilin(i)) && err != nil, !lgood(ptr(*schemaDef, rec(mapper, last))) && lcalled(ptr(*schemaDef, rec(mapper, last))))
  ensures [P10] stoppedback: implies(golens(ilin(i)) && err != nil && hasv(ilin(i), to) && less(to, ischema(i).v), forall(j, 0, len(ilin(i).allsch), implies(lcalled(ilin(i).allsch[j]),
    !less(ilin(i).allv[j], to) && less(ilin(i).allv[j], ischema(i).v) && lright(ilin(i).allsch[j], ilin(i).allsch[j+1])
    && rec(mapper, inst, ilin(i).allsch[j]) == ite(ilin(i).allv[j+1] == ischema(i).v, i, rec(mapper, r, ilin(i).allsch[j+1])))))
  ensures [P10] stoppedforward: implies(golens(ilin(i)) && err != nil && hasv(ilin(i), to) && less(ischema(i).v, to), forall(j, 1, len(ilin(i).allsch), implies(lcalled(ilin(i).allsch[j]),
    ilin(i).allv[j][1] == 0 && less(ischema(i).v, ilin(i).allv[j]) && !less(to, ilin(i).allv[j]) && lright(ilin(i).allsch[j], ilin(i).allsch[j-1])
    && majdata(i, ilin(i).allv[j-1][0], rec(mapper, inst, ilin(i).allsch[j]).raw))))
}
funcfield ImperativeLens.Mapper(inst, to) (r, err) {
  record mapper by base(to)
  requires InstOK(inst) && ISch(to)
  requires [P17] free(base(to).lin.rt)
  // a lens hands back an instance it got from this package, or none
  ensures implies(r != nil, InstOK(r))
}
