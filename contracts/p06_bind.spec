import cuetil "github.com/grafana/thema/internal/cuetil"
import envvars "github.com/grafana/thema/internal/envvars"

package "github.com/grafana/thema/internal/cuetil"

// the conjuncts of a value
ghost func nsplit(cue.Value) int
ghost func splitAt(cue.Value, int) cue.Value

func AppendSplit(v, splitBy, a) (r) {
  trusted "walks CUE expression trees; only BindLineage uses the result, as the list of conjuncts"
  requires a == nil
  ensures len(r) == nsplit(v) && (r == nil || fresh(r)) && forall(k, 0, len(r), r[k] == splitAt(v, k))
}

package "github.com/grafana/thema"

extern pure (cue.Value).ReferencePath(v) (root, p)
extern pure (cue.Value).BuildInstance(v) (r)

// the value is inside the thema package
ghost func themaroot(cue.Value) bool
helper isThemaPackage(v) (r) {
  trusted "reads the import path of the CUE instance a value belongs to"
  ensures iff(r, themaroot(v))
}
fn linref(c cue.Value) bool {
  res(1, c.ReferencePath()).String() == "#Lineage" && themaroot(res(0, c.ReferencePath()))
}
// v itself contains a conjunct thema.#Lineage, among other things
fn selfunified(v cue.Value) bool {
  nsplit(v) > 1 && exists(k, 0, nsplit(v), linref(splitAt(v, k)))
}
fn lindef(rt *Runtime) cue.Value {
  rt.val.LookupPath(cue.MakePath(cue.Def("#Lineage")))
}
helper (rt *Runtime) linDef() (r) {
  requires allocated(rt)
  ensures r == lindef(rt)
}

// --- options
ghost func optskip(BindOption) bool
// the Go lenses an option carries
ghost func optlen(BindOption) int
ghost func optlens(BindOption, int) ImperativeLens
funcfield BindOption(c) () {
  requires allocated(c)
  modifies c.skipbuggychecks, c.implens, elems(c.implens)
  ensures iff(c.skipbuggychecks, old(c.skipbuggychecks) || optskip(self))
  ensures fresh(c.implens) || baseof(c.implens) == old(baseof(c.implens))
  ensures optlen(self) >= 0
  ensures len(c.implens) == old(len(c.implens)) + optlen(self) && forall(k, 0, old(len(c.implens)), c.implens[k] == old(c.implens[k])) && forall(k, 0, optlen(self), c.implens[old(len(c.implens)) + k] == optlens(self, k))
}
func SkipBuggyChecks() (r) {
  // this is what optskip and optlen mean for this option
  assumes r != nil && iff(optskip(r), !envvars.ForceVerify) && optlen(r) == 0
  returns closure(c) () {
    requires allocated(c)
    modifies c.skipbuggychecks
    ensures [P05] skip: iff(c.skipbuggychecks, old(c.skipbuggychecks) || !envvars.ForceVerify)
  }
}
func ImperativeLenses(lenses) (r) {
  assumes r != nil && !optskip(r) && optlen(r) == len(lenses) && forall(k, 0, len(lenses), optlens(r, k) == lenses[k])
  returns closure(c) () {
    requires allocated(c) && (c.implens == nil || baseof(c.implens) != baseof(lenses))
    modifies c.implens, elems(c.implens)
    ensures [P11] base: fresh(c.implens) || baseof(c.implens) == old(baseof(c.implens))
    ensures [P11] added: len(c.implens) == old(len(c.implens)) + len(lenses) && forall(k, 0, old(len(c.implens)), c.implens[k] == old(c.implens[k])) && forall(k, 0, len(lenses), c.implens[old(len(c.implens)) + k] == lenses[k])
  }
}

// --- BindLineage
// what #Lineage says about the schemas of a value unified with it, if that value is valid
ghost func unified(cue.Value) bool
axiom forall(rt, *Runtime, forall(w, cue.Value, unified(lindef(rt).Unify(w))))
axiom forall(w, cue.Value, implies(selfunified(w), unified(w)))
fn linshape(u cue.Value) bool {
  listErr(field(u, "schemas")) == nil && ndecl(u) > 0
  && forall(k, 0, ndecl(u), listErr(field(decl(u, k), "version")) == nil && implies(concretev(u, k), decodeErr(field(decl(u, k), "version"), SyntacticVersion) == nil))
}
fn skips(opts []BindOption, n int) bool {
  exists(o, 0, n, optskip(opts[o]))
}
fn lensesin(opts []BindOption, n int) bool {
  exists(o, 0, n, optlen(opts[o]) > 0)
}
// v is the lineage on its own, or the lineage and #Lineage and nothing else
fn simple(v cue.Value) bool {
  !selfunified(v) || nsplit(v) == 2 && !(linref(splitAt(v, 0)) && linref(splitAt(v, 1)))
}
fn sound(v cue.Value, u cue.Value) bool {
  v.Exists() && shaped(v, u) && valid(v) && valid(u)
}
func BindLineage(v, rt, opts) (l, err) {
  safe [P04 P05 P06 P11 P12]
  requires allocated(rt) && forall(o, 0, len(opts), opts[o] != nil)
  requires [P17] unlocked: free(rt)
  ensures [P17] released: free(rt)
  under [P17] W rt : Unify, Validate, LookupPath, Subsume, FillPath, Decode, checkExists, checkLineageShape, checkNativeValidity, checkGoValidity, checkLensesOrder, checkGoLensCompleteness
  // AppendSplit leaves out duplicates
  maypanicif selfunified(v) && forall(k, 0, nsplit(v), linref(splitAt(v, k)))
  loopinv (k int, c *bindConfig) 0 <= k && k <= len(opts) && allocated(c) && fresh(c)
  loopinv (k int, c *bindConfig) len(c.implens) >= 0 && (c.implens == nil || fresh(c.implens))
  loopinv (k int, c *bindConfig) implies(c.skipbuggychecks, skips(opts, k)) && forall(o, 0, k, implies(optskip(opts[o]), c.skipbuggychecks))
  loopinv (k int, c *bindConfig) implies(len(c.implens) > 0, lensesin(opts, k))
  loopinv (k int, c *bindConfig) forall(o, 0, k, implies(optlen(opts[o]) > 0, len(c.implens) > 0))
  loopinv [P11] (k int, c *bindConfig) implies(k == 0, len(c.implens) == 0) && implies(k == 1, len(c.implens) == optlen(opts[0]) && forall(j, 0, len(c.implens), c.implens[j] == optlens(opts[0], j)))
  loopinv (k int, others []cue.Value) 0 <= k && k <= nsplit(v) && len(others) <= k && iff(len(others) == k, forall(j, 0, k, !linref(splitAt(v, j)))) && iff(len(others) == 0, forall(j, 0, k, linref(splitAt(v, j))))
  loopinv (k int, lin *baseLineage) forall(j, 0, k, lin.allsch[j].lin == lin)
  ensures iff(err == nil, l != nil)
  ensures implies(err == nil, typeis(l, *baseLineage) && fresh(linof(l)) && LinOK(linof(l)) && linof(l).rt == rt)
  ensures [P06] either: iff(err == nil, l != nil)
  ensures [P06] checked: implies(err == nil, linof(l).raw.Exists() && shaped(linof(l).raw, linof(l).uni) && valid(linof(l).raw) && valid(linof(l).uni))
  ensures [P06] name: implies(err == nil, linof(l).name == res(0, field(v, "name").String()))
  ensures [P06] value: implies(err == nil, linof(l).uni == v && selfunified(v) || linof(l).uni == lindef(rt).Unify(linof(l).raw)) 
  ensures [P06] simple: implies(err == nil && simple(v), linof(l).uni == ite(selfunified(v), v, lindef(rt).Unify(v)) && linof(l).raw == v)
  ensures [P06] missing: implies(simple(v) && !v.Exists(), errIs(err, terrors.ErrValueNotExist))
  ensures [P06] notalineage: implies(simple(v) && v.Exists() && (!field(v, "name").Exists() || hasfield(v, "name") && !field(v, "schemas").Exists()), errIs(err, terrors.ErrValueNotALineage))
  ensures [P06] abstract: implies(simple(v) && v.Exists() && (field(v, "name").Exists() && !hasfield(v, "name") || hasfield(v, "name") && field(v, "schemas").Exists() && !hasfield(v, "schemas")), errIs(err, terrors.ErrInvalidLineage))
  ensures [P06] invalid: implies(!selfunified(v) && v.Exists() && hasfield(v, "name") && hasfield(v, "schemas") && !sound(v, lindef(rt).Unify(v)), errIs(err, terrors.ErrInvalidLineage))
  ensures [P06] invalid2: implies(selfunified(v) && simple(v) && v.Exists() && hasfield(v, "name") && hasfield(v, "schemas") && !sound(v, v), errIs(err, terrors.ErrInvalidLineage))
  // what Validate unifies with is the joined, closed definition of the declared schema
  ensures [P01] joined: implies(err == nil, len(linof(l).allsch) == ndecl(linof(l).uni) && forall(k, 0, len(linof(l).allsch), linof(l).allsch[k].def == schdef(decl(linof(l).uni, k))))
  ensures [P04] numbered: implies(err == nil, sequential(linof(l).uni) && allconcrete(linof(l).uni) && MajOK(linof(l)))
  ensures [P04] declared: implies(err == nil, len(linof(l).allsch) == ndecl(linof(l).uni) && forall(k, 0, len(linof(l).allsch), linof(l).allsch[k].v == declv(linof(l).uni, k) && linof(l).allsch[k].ref == decl(linof(l).uni, k) && linof(l).allsch[k].lin == linof(l)))
  ensures [P04] order: implies(!selfunified(v) && sound(v, lindef(rt).Unify(v)) && allconcrete(lindef(rt).Unify(v)) && !sequential(lindef(rt).Unify(v)) && (skips(opts, len(opts)) || allcompatible(lindef(rt).Unify(v))), errIs(err, terrors.ErrInvalidSchemasOrder))
  ensures [P04] order2: implies(selfunified(v) && simple(v) && sound(v, v) && allconcrete(v) && !sequential(v) && (skips(opts, len(opts)) || allcompatible(v)), errIs(err, terrors.ErrInvalidSchemasOrder))
  ensures [P04] concrete: implies(!selfunified(v) && sound(v, lindef(rt).Unify(v)) && !allconcrete(lindef(rt).Unify(v)) && sequential(lindef(rt).Unify(v)), errIs(err, terrors.ErrInvalidLineage))
  ensures [P04] concrete2: implies(selfunified(v) && simple(v) && sound(v, v) && !allconcrete(v) && sequential(v), errIs(err, terrors.ErrInvalidLineage))
  ensures [P05] compatible: implies(err == nil && !skips(opts, len(opts)), allcompatible(linof(l).uni))
  ensures [P05] class: implies(!selfunified(v) && sound(v, lindef(rt).Unify(v)) && allconcrete(lindef(rt).Unify(v)) && sequential(lindef(rt).Unify(v)) && !skips(opts, len(opts)) && !allcompatible(lindef(rt).Unify(v)), errIs(err, terrors.ErrInvalidLineage))
  ensures [P05] class2: implies(selfunified(v) && simple(v) && sound(v, v) && allconcrete(v) && sequential(v) && !skips(opts, len(opts)) && !allcompatible(v), errIs(err, terrors.ErrInvalidLineage))
  ensures [P04 P05 P12] accepted: implies(!selfunified(v) && sound(v, lindef(rt).Unify(v)) && allconcrete(lindef(rt).Unify(v)) && sequential(lindef(rt).Unify(v)) && (skips(opts, len(opts)) || allcompatible(lindef(rt).Unify(v))) && !lensesin(opts, len(opts)) && (listErr(field(lindef(rt).Unify(v), "lenses")) != nil || lenseslisted(lindef(rt).Unify(v)) && lensesordered(lindef(rt).Unify(v))), err == nil)
  ensures [P04 P05 P12] accepted2: implies(selfunified(v) && simple(v) && sound(v, v) && allconcrete(v) && sequential(v) && (skips(opts, len(opts)) || allcompatible(v)) && !lensesin(opts, len(opts)) && (listErr(field(v, "lenses")) != nil || lenseslisted(v) && lensesordered(v)), err == nil)
  ensures [P12] ordered: implies(err == nil && !lensesin(opts, len(opts)) && listErr(field(linof(l).uni, "lenses")) == nil, lenseslisted(linof(l).uni) && lensesordered(linof(l).uni))
  ensures [P11] lenses: implies(err == nil, iff(golens(linof(l)), lensesin(opts, len(opts))) && LensOK(linof(l)))
  ensures [P11] used: implies(err == nil && len(opts) == 1, forall(j, 0, optlen(opts[0]), has(linof(l).lensmap, lensID{From: optlens(opts[0], j).From, To: optlens(opts[0], j).To}) && lensfor(linof(l), optlens(opts[0], j).From, optlens(opts[0], j).To) == optlens(opts[0], j)))
}
