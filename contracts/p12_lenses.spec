import bytes "bytes"
import fmt "fmt"

package "github.com/grafana/thema"

// --- lenses written in CUE
fn nlens(u cue.Value) int {
  listLen(listOf(field(u, "lenses")))
}
fn lens(u cue.Value, k int) cue.Value {
  itVal(listOf(field(u, "lenses")), k)
}
fn lensver(l cue.Value, p string) cue.Value {
  field(l.Value(), p).Value()
}
fn lensok(l cue.Value) bool {
  decodeErr(lensver(l, "to"), SyntacticVersion) == nil && decodeErr(lensver(l, "from"), SyntacticVersion) == nil
}
fn lensto(l cue.Value) SyntacticVersion {
  decoded(lensver(l, "to"), SyntacticVersion)
}
fn lensfrom(l cue.Value) SyntacticVersion {
  decoded(lensver(l, "from"), SyntacticVersion)
}
fn lensless(at SyntacticVersion, af SyntacticVersion, bt SyntacticVersion, bf SyntacticVersion) bool {
  less(at, bt) || at == bt && less(af, bf)
}
helper (v lensVersionDef) version(val, p) (r, err) {
  ensures iff(err == nil, decodeErr(lensver(val, p), SyntacticVersion) == nil)
  ensures implies(err == nil, r == decoded(lensver(val, p), SyntacticVersion))
  ensures implies(err != nil, errIs(err, terrors.ErrInvalidLineage))
}
helper newLensVersionDef(val) (r, err) {
  ensures iff(err == nil, lensok(val))
  ensures implies(err == nil, r.to == lensto(val) && r.from == lensfrom(val))
  ensures implies(err != nil, errIs(err, terrors.ErrInvalidLineage))
}
helper doCheck(prev, curr) (err) {
  requires implies(prev != nil, allocated(prev)) && implies(curr != nil, allocated(curr))
  ensures iff(err == nil, prev == nil || curr == nil || lensless(prev.to, prev.from, curr.to, curr.from))
  ensures implies(err != nil, errIs(err, terrors.ErrInvalidLensesOrder))
}
fn lenseslisted(u cue.Value) bool {
  forall(k, 0, nlens(u), lensok(lens(u, k)))
}
fn lensesordered(u cue.Value) bool {
  forall(k, 0, nlens(u), forall(q, k+1, ite(k+2 < nlens(u), k+2, nlens(u)), lensless(lensto(lens(u, k)), lensfrom(lens(u, k)), lensto(lens(u, q)), lensfrom(lens(u, q)))))
}
func (ml *maybeLineage) checkLensesOrder() (err) {
  safe [P11 P12]
  requires MlOK(ml)
  modifies ml.lensmap
  loopinv (it cue.Iterator, p *lensVersionDef) itlist(it) == listOf(field(ml.uni, "lenses")) && -1 <= itpos(it) && itpos(it) < nlens(ml.uni) && iff(p == nil, itpos(it) == -1) && implies(p != nil, allocated(p) && p.to == lensto(lens(ml.uni, itpos(it))) && p.from == lensfrom(lens(ml.uni, itpos(it))))
  loopinv (it cue.Iterator) itlist(it) == listOf(field(ml.uni, "lenses")) && -1 <= itpos(it) && itpos(it) < nlens(ml.uni)
  loopinv (it cue.Iterator, d []lensVersionDef) len(d) == itpos(it)+1 && implies(len(d) > 0, d[len(d)-1].to == lensto(lens(ml.uni, itpos(it))) && d[len(d)-1].from == lensfrom(lens(ml.uni, itpos(it))))
  loopinv (it cue.Iterator) forall(k, 0, itpos(it)+1, lensok(lens(ml.uni, k)))
  loopinv (it cue.Iterator) forall(k, 0, itpos(it), forall(q, k+1, k+2, lensless(lensto(lens(ml.uni, k)), lensfrom(lens(ml.uni, k)), lensto(lens(ml.uni, q)), lensfrom(lens(ml.uni, q)))))
  ensures implies(len(ml.implens) == 0, ml.lensmap == old(ml.lensmap))
  ensures [P11] bound: implies(err == nil && len(ml.implens) > 0, LensesBound(ml))
  ensures [P04 P05 P12] ordered: implies(len(ml.implens) == 0 && listErr(field(ml.uni, "lenses")) == nil, iff(err == nil, lenseslisted(ml.uni) && lensesordered(ml.uni)))
  ensures [P04 P05 P12] none: implies(len(ml.implens) == 0 && listErr(field(ml.uni, "lenses")) != nil, err == nil)
  ensures [P12] order: implies(len(ml.implens) == 0 && lenseslisted(ml.uni) && err != nil, errIs(err, terrors.ErrInvalidLensesOrder))
  ensures [P12] unreadable: implies(len(ml.implens) == 0 && listErr(field(ml.uni, "lenses")) == nil && lensesordered(ml.uni) && !lenseslisted(ml.uni), errIs(err, terrors.ErrInvalidLineage))
  ensures [P11] exact: implies(len(ml.implens) > 0, iff(err == nil, lensexact(ml)))
  ensures [P11] missing: implies(len(ml.implens) > 0 && lensdistinct(ml) && lensnonnil(ml) && !lensnonemissing(ml), errIs(err, terrors.ErrMissingLenses))
  ensures [P11] superfluous: implies(len(ml.implens) > 0 && lensdistinct(ml) && lensnonnil(ml) && lensnonemissing(ml) && !lensnonesuperfluous(ml), errIs(err, terrors.ErrErroneousLenses))
}

// --- lenses written in Go
pred MlOK(ml *maybeLineage) {
  allocated(ml) && len(ml.schlist) == len(ml.allv) && len(ml.allv) > 0 && Sequence(ml.allv, len(ml.allv))
  && forall(i, 0, len(ml.schlist), allocated(ml.schlist[i]) && ml.schlist[i].v == ml.allv[i])
}
fn isid(l ImperativeLens, from SyntacticVersion, to SyntacticVersion) bool {
  l.From == from && l.To == to
}
fn provided(ml *maybeLineage, n int, from SyntacticVersion, to SyntacticVersion) bool {
  exists(j, 0, n, isid(ml.implens[j], from, to))
}
// the same: forallm and existsm only tell the solver where to look
fn providedm(ml *maybeLineage, n int, from SyntacticVersion, to SyntacticVersion) bool {
  existsm(j, 0, n, isid(ml.implens[j], from, to))
}
// a lens from -> to is called for by the first n schemas
fn called(ml *maybeLineage, n int, from SyntacticVersion, to SyntacticVersion) bool {
  exists(i, 1, n, from == ml.allv[i] && to == ml.allv[i-1] || ml.allv[i][0] != ml.allv[i-1][0] && from == ml.allv[i-1] && to == ml.allv[i])
}
fn lensdistinct(ml *maybeLineage) bool {
  forall(j, 0, len(ml.implens), forall(k, j+1, len(ml.implens), !isid(ml.implens[j], ml.implens[k].From, ml.implens[k].To)))
}
fn lensnonnil(ml *maybeLineage) bool {
  forall(j, 0, len(ml.implens), ml.implens[j].Mapper != nil)
}
fn lensnonemissing(ml *maybeLineage) bool {
  forall(i, 1, len(ml.allv), provided(ml, len(ml.implens), ml.allv[i], ml.allv[i-1]) && implies(ml.allv[i][0] != ml.allv[i-1][0], provided(ml, len(ml.implens), ml.allv[i-1], ml.allv[i])))
}
fn lensnonesuperfluous(ml *maybeLineage) bool {
  forallm(j, 0, len(ml.implens), called(ml, len(ml.allv), ml.implens[j].From, ml.implens[j].To))
}
fn lensexact(ml *maybeLineage) bool {
  lensdistinct(ml) && lensnonnil(ml) && lensnonemissing(ml) && lensnonesuperfluous(ml)
}
// the lens map holds exactly the lenses provided
pred LensesBound(ml *maybeLineage) {
  len(ml.lensmap) > 0 && lensexact(ml)
  && forall(j, 0, len(ml.implens), has(ml.lensmap, lensID{From: ml.implens[j].From, To: ml.implens[j].To}) && ml.lensmap[lensID{From: ml.implens[j].From, To: ml.implens[j].To}] == ml.implens[j])
}
func (ml *maybeLineage) checkGoLensCompleteness() (err) {
  safe [P11]
  requires MlOK(ml) && len(ml.implens) > 0
  modifies ml.lensmap
  // while the lenses are collected
  loopinv [P11] (k int, all map[lensID]bool) 0 <= k && k <= len(ml.implens) && forall(id, lensID, has(all, id) == all[id] && iff(all[id], providedm(ml, k, id.From, id.To)))
  loopinv [P11] (k int) 0 <= k && k <= len(ml.implens) && forall(j, 0, k, ml.implens[j].Mapper != nil && forall(q, j+1, k, !isid(ml.implens[j], ml.implens[q].From, ml.implens[q].To)))
  // while the schemas are walked
  loopinv [P11] (k int, all map[lensID]bool) forall(id, lensID, has(all, id) == all[id] && iff(all[id], providedm(ml, len(ml.implens), id.From, id.To) && !called(ml, k+1, id.From, id.To)))
  loopinv [P11] (k int, prior SyntacticVersion) 0 <= k && k < len(ml.allv) && prior == ml.allv[k]
  loopinv [P11] (k int, all map[lensID]bool) forallm(j, 0, len(ml.implens), all[lensID{From: ml.implens[j].From, To: ml.implens[j].To}] || called(ml, k+1, ml.implens[j].From, ml.implens[j].To))
  loopinv [P11] (k int, missing []lensID) implies(len(missing) == 0, forall(i, 1, k+1, provided(ml, len(ml.implens), ml.allv[i], ml.allv[i-1]) && implies(ml.allv[i][0] != ml.allv[i-1][0], provided(ml, len(ml.implens), ml.allv[i-1], ml.allv[i]))))
  loopinv [P11] (k int, missing []lensID) len(missing) >= 0 && implies(len(missing) > 0, called(ml, k+1, missing[0].From, missing[0].To) && !provided(ml, len(ml.implens), missing[0].From, missing[0].To))
  // while the lens map is filled
  loopinv [P11] (k int) 0 <= k && k <= len(ml.implens) && fresh(ml.lensmap) && implies(k > 0, len(ml.lensmap) > 0) && forall(j, 0, k, has(ml.lensmap, lensID{From: ml.implens[j].From, To: ml.implens[j].To}) && ml.lensmap[lensID{From: ml.implens[j].From, To: ml.implens[j].To}] == ml.implens[j])
  ensures [P11] bound: implies(err == nil, LensesBound(ml))
  ensures [P11] exact: iff(err == nil, lensexact(ml))
  ensures [P11] missing: implies(lensdistinct(ml) && lensnonnil(ml) && !lensnonemissing(ml), errIs(err, terrors.ErrMissingLenses))
  ensures [P11] superfluous: implies(lensdistinct(ml) && lensnonnil(ml) && lensnonemissing(ml) && !lensnonesuperfluous(ml), errIs(err, terrors.ErrErroneousLenses))
}
