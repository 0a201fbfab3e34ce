import compat "github.com/grafana/thema/internal/compat"
import ast "cuelang.org/go/cue/ast"

package "github.com/grafana/thema/internal/compat"

func ThemaCompatible(p, s) (err) {
  safe [P05]
  ensures err == s.Subsume(p, cue.Raw(), cue.All())
  ensures [P05] subsumes: err == s.Subsume(p, cue.Raw(), cue.All())
}

package "github.com/grafana/thema"

extern pure (cue.Value).Source(v) (n)
extern pure (ast.Node).Pos(n) (p)

// --- CUE lists: the iterator of List walks listLen elements
ghost func listOf(cue.Value) cue.Value
ghost func listErr(cue.Value) error
ghost func listLen(cue.Value) int
ghost func itVal(cue.Value, int) cue.Value

fn field(v cue.Value, name string) cue.Value {
  v.LookupPath(cue.MakePath(cue.Str(name)))
}
// the schemas declared in a lineage, and what each declares
fn ndecl(u cue.Value) int {
  listLen(listOf(field(u, "schemas")))
}
fn decl(u cue.Value, k int) cue.Value {
  itVal(listOf(field(u, "schemas")), k)
}
fn declv(u cue.Value, k int) SyntacticVersion {
  decoded(field(decl(u, k), "version"), SyntacticVersion)
}
fn concretev(u cue.Value, k int) bool {
  forall(q, 0, listLen(listOf(field(decl(u, k), "version"))), itVal(listOf(field(decl(u, k), "version")), q).IsConcrete())
}
// schema k and its predecessor are compatible exactly if k is a minor version
fn compatible(u cue.Value, k int) bool {
  iff(schdef(decl(u, k)).Subsume(schdef(decl(u, k-1)), cue.Raw(), cue.All()) == nil, declv(u, k)[1] != 0)
}
fn sequential(u cue.Value) bool {
  implies(ndecl(u) > 0, declv(u, 0) == sv(0, 0)) && forall(k, 1, ndecl(u), follows(declv(u, k-1), declv(u, k)))
}
fn allconcrete(u cue.Value) bool {
  forall(k, 0, ndecl(u), concretev(u, k))
}
fn allcompatible(u cue.Value) bool {
  forall(k, 1, ndecl(u), compatible(u, k))
}

helper mkerror(val, format, args) (err) {
  ensures err != nil
}
// the versions of a list of versions that directly follow each other
pred Sequence(a []SyntacticVersion, n int) {
  implies(n > 0, a[0] == sv(0, 0))
  && forall(i, 0, n, a[i][0] + a[i][1] <= i)
  && forall(i, 0, n, forall(j, i+1, ite(i+2 < n, i+2, n), follows(a[i], a[j])))
  && forall(i, 0, n, forall(j, i+1, n, less(a[i], a[j])))
  && forall(i, 0, n, implies(a[i][1] != 0, exists(j, 0, i, a[j] == sv(a[i][0], 0))))
}
helper (ml *maybeLineage) checkVersionsAreSequential() (err) {
  requires allocated(ml) && len(ml.schlist) == len(ml.allv) && forall(i, 0, len(ml.schlist), allocated(ml.schlist[i]))
  loopinv (k int) Sequence(ml.allv, k)
  ensures implies(err == nil, Sequence(ml.allv, len(ml.allv)))
  ensures implies(err != nil, len(ml.allv) > 0 && !(ml.allv[0] == sv(0, 0) && forall(i, 1, len(ml.allv), follows(ml.allv[i-1], ml.allv[i]))))
  ensures implies(err != nil, errIs(err, terrors.ErrInvalidSchemasOrder))
}
helper (ml *maybeLineage) checkSchemasOrder(prev, curr) (err) {
  requires implies(prev != nil, allocated(prev)) && allocated(curr)
  ensures iff(err != nil, prev != nil && less(curr.v, prev.v))
  ensures implies(err != nil, errIs(err, terrors.ErrInvalidSchemasOrder))
}
// schema k of the list is made from declaration k
fn madefrom(u cue.Value, k int, s *schemaDef) bool {
  s.ref == decl(u, k) && s.def == schdef(decl(u, k)) && s.v == declv(u, k)
}
func (ml *maybeLineage) checkGoValidity(cfg) (err) {
  safe [P04 P05]
  requires allocated(ml) && allocated(cfg)
  requires ml.schlist == nil && ml.allv == nil
  // what #Lineage guarantees for a value that has passed the checks before
  maypanicif listErr(field(ml.uni, "schemas")) != nil || exists(k, 0, ndecl(ml.uni), listErr(field(decl(ml.uni, k), "version")) != nil || concretev(ml.uni, k) && decodeErr(field(decl(ml.uni, k), "version"), SyntacticVersion) != nil)
  modifies ml.schlist, ml.allv
  loopinv (it cue.Iterator, p *schemaDef) itlist(it) == listOf(field(ml.uni, "schemas")) && -1 <= itpos(it) && itpos(it) < ndecl(ml.uni) && len(ml.schlist) == itpos(it) + 1 && len(ml.allv) == itpos(it) + 1 && iff(p == nil, itpos(it) == -1) && implies(p != nil, p == ml.schlist[itpos(it)])
  loopinv (it cue.Iterator) forall(j, 0, len(ml.schlist), allocated(ml.schlist[j]) && fresh(ml.schlist[j]) && madefrom(ml.uni, j, ml.schlist[j]) && ml.allv[j] == declv(ml.uni, j))
  loopinv (it cue.Iterator) forall(j, 0, len(ml.schlist), forall(q, j+1, len(ml.schlist), ml.schlist[j] != ml.schlist[q]))
  loopinv (it cue.Iterator) (fresh(ml.schlist) || ml.schlist == nil) && (fresh(ml.allv) || ml.allv == nil)
  loopinv (it cue.Iterator) forall(j, 0, len(ml.schlist), concretev(ml.uni, j)) && implies(!cfg.skipbuggychecks, forall(j, 1, len(ml.schlist), compatible(ml.uni, j)))
  loopinv (it cue.Iterator) -1 <= itpos(it) && forall(q, 0, itpos(it)+1, itVal(itlist(it), q).IsConcrete())
  ensures implies(err == nil, len(ml.schlist) == ndecl(ml.uni) && len(ml.allv) == ndecl(ml.uni) && Sequence(ml.allv, len(ml.allv)))
  ensures implies(err == nil, forall(j, 0, len(ml.schlist), allocated(ml.schlist[j]) && fresh(ml.schlist[j]) && madefrom(ml.uni, j, ml.schlist[j]) && ml.allv[j] == declv(ml.uni, j)))
  ensures implies(err == nil, forall(j, 0, len(ml.schlist), forall(q, j+1, len(ml.schlist), ml.schlist[j] != ml.schlist[q])))
  ensures implies(err == nil, (fresh(ml.schlist) || ml.schlist == nil) && (fresh(ml.allv) || ml.allv == nil))
  ensures implies(err != nil, errIs(err, terrors.ErrInvalidSchemasOrder) || errIs(err, terrors.ErrInvalidLineage))
  ensures [P04] sequential: implies(err == nil, sequential(ml.uni) && allconcrete(ml.uni))
  ensures [P05] compatible: implies(err == nil && !cfg.skipbuggychecks, allcompatible(ml.uni))
  ensures [P04 P05 P12] accepted: implies(allconcrete(ml.uni) && sequential(ml.uni) && (cfg.skipbuggychecks || allcompatible(ml.uni)), err == nil)
  ensures [P04] order: implies(allconcrete(ml.uni) && !sequential(ml.uni) && (cfg.skipbuggychecks || allcompatible(ml.uni)), errIs(err, terrors.ErrInvalidSchemasOrder))
  ensures [P04] concrete: implies(!allconcrete(ml.uni) && sequential(ml.uni), errIs(err, terrors.ErrInvalidLineage))
  ensures [P05] class: implies(sequential(ml.uni) && err != nil, errIs(err, terrors.ErrInvalidLineage))
}
