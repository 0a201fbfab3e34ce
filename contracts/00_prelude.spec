// Names, assumed library behaviour and the predicates shared by all contracts.
import cue "cuelang.org/go/cue"
import cerrors "cuelang.org/go/cue/errors"
import terrors "github.com/grafana/thema/errors"
import errors "github.com/cockroachdb/errors"
import strconv "strconv"
import strings "strings"
import token "cuelang.org/go/cue/token"
import fs "io/fs"

package "github.com/grafana/thema"

// --- external functions (assumed)
extern pure (cue.Value).LookupPath(v, p) (r)
extern pure (cue.Value).Unify(v, w) (r)
extern pure (cue.Value).Exists(v) (r)
extern pure (cue.Value).IsConcrete(v) (r)
// the errors CUE's validation reports are CUE errors
extern pure (cue.Value).Validate(v, o) (err) {
  ensures implies(err != nil, typeis(err, cerrors.Error))
}
extern pure (cue.Value).Subsume(v, w, o) (err)
extern pure (cue.Value).Err(v) (err)
extern pure (cue.Value).Default(v) (r, ok)
extern pure (cue.Value).Value(v) (r)
extern pure (cue.Value).Path(v) (r)
extern pure (cue.Value).Context(v) (r)
extern pure (cue.Value).String(v) (s, err)
extern pure (cue.Value).Decode(v, x) (err) {
  writes 1
}
extern pure (cue.Path).String(p) (s)
extern pure cue.Str(s) (r)
extern pure cue.Def(s) (r)
extern pure cue.Hid(s, p) (r)
extern pure cue.MakePath(s) (r)
extern pure cue.ParsePath(s) (r)
extern pure cue.Concrete(b) (r)
extern pure cue.Final() (r)
extern pure cue.Raw() (r)
extern pure cue.All() (r)

extern errors.Mark(e, ref) (r) {
  ensures iff(e == nil, r == nil)
  ensures implies(e != nil, errIs(r, ref))
  ensures implies(e != nil, forall(t, error, implies(errIs(e, t), errIs(r, t))))
}
extern errors.Newf(f, a) (r) {
  ensures r != nil
}
extern errors.New(s) (r) {
  ensures r != nil
}
extern errors.Errorf(f, a) (r) {
  ensures r != nil
}
extern errors.WithStack(e) (r) {
  ensures iff(e == nil, r == nil)
  ensures forall(t, error, implies(errIs(e, t), errIs(r, t)))
}
extern pure cerrors.Errors(e) (l) {
  ensures forall(i, 0, len(l), l[i] != nil)
}
extern pure (cerrors.Error).InputPositions(e) (l)
extern pure (cerrors.Error).Path(e) (l)
extern pure (cerrors.Error).Msg(e) (f, a)
extern pure (token.Pos).Filename(p) (s)
extern pure strings.HasSuffix(s, t) (b)
extern pure strings.Contains(s, t) (b)
extern cerrors.Promote(e, s) (r) {
  ensures iff(e == nil, r == nil)
}
extern cerrors.Newf(p, f, a) (r) {
  ensures r != nil
}
axiom forall(e, error, implies(e != nil, errIs(e, e)))

// --- versions
fn less(a SyntacticVersion, b SyntacticVersion) bool {
  a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
}
// b directly follows a
fn follows(a SyntacticVersion, b SyntacticVersion) bool {
  b[0] == a[0] && b[1] == a[1] + 1 || b[0] == a[0] + 1 && b[1] == 0
}

// --- lineages and schemas
fn schdef(v cue.Value) cue.Value {
  v.LookupPath(cue.MakePath(cue.Hid("_#schema", "github.com/grafana/thema")))
}
pred LinOK(lin *baseLineage) {
  allocated(lin) && lin.validated && allocated(lin.rt)
  && len(lin.allsch) == len(lin.allv) && len(lin.allv) > 0
  && lin.allv[0] == sv(0, 0)
  && forall(i, 0, len(lin.allv), allocated(lin.allsch[i]) && lin.allsch[i].lin == lin && lin.allsch[i].v == lin.allv[i]
       && lin.allsch[i].def == schdef(lin.allsch[i].ref))
  && forall(i, 0, len(lin.allv), lin.allv[i][0] + lin.allv[i][1] <= i)
  && forall(i, 1, len(lin.allv), follows(lin.allv[i-1], lin.allv[i]))
  && forall(i, 0, len(lin.allv), forall(j, i+1, len(lin.allv), less(lin.allv[i], lin.allv[j])))
}
pred SchOK(s *schemaDef) {
  allocated(s) && LinOK(s.lin) && exists(i, 0, len(s.lin.allsch), s.lin.allsch[i] == s)
}
fn linof(l Lineage) *baseLineage {
  as(l, *baseLineage)
}

// a schema value: a schemaDef, or a typed schema over one
pred ISch(s Schema) {
  typeis(s, *schemaDef) && SchOK(as(s, *schemaDef))
  || typeis(s, *unaryTypedSchema) && allocated(as(s, *unaryTypedSchema)) && typeis(as(s, *unaryTypedSchema).Schema, *schemaDef) && SchOK(as(as(s, *unaryTypedSchema).Schema, *schemaDef))
}
// one that may not be part of a lineage yet
pred ISchRaw(s Schema) {
  typeis(s, *schemaDef) && allocated(as(s, *schemaDef))
  || typeis(s, *unaryTypedSchema) && allocated(as(s, *unaryTypedSchema)) && typeis(as(s, *unaryTypedSchema).Schema, *schemaDef) && allocated(as(as(s, *unaryTypedSchema).Schema, *schemaDef))
}
fn base(s Schema) *schemaDef {
  ite(typeis(s, *schemaDef), as(s, *schemaDef), as(as(s, *unaryTypedSchema).Schema, *schemaDef))
}
fn at(lin *baseLineage, i int, s *schemaDef) bool {
  0 <= i && i < len(lin.allsch) && lin.allsch[i] == s
}

// every major version starts with minor version 0
pred MajOK(lin *baseLineage) {
  forall(i, 0, len(lin.allv), exists(j, 0, i+1, lin.allv[j] == sv(lin.allv[i][0], 0)))
}

// an instance in the hands of a caller: made by this package, of a schema of a bound lineage
pred InstOK(i *Instance) {
  allocated(i) && i.valid && typeis(i.sch, *schemaDef) && SchOK(as(i.sch, *schemaDef))
}
fn ischema(i *Instance) *schemaDef {
  as(i.sch, *schemaDef)
}
// what the property calls accepting data
fn accepts(s *schemaDef, data cue.Value) bool {
  schdef(s.ref).Unify(data).Validate(cue.Concrete(true)) == nil
}

// the runtime's lock is not held
fn free(rt *Runtime) bool {
  lockR(rt) == 0 && lockW(rt) == 0
}
