package "github.com/grafana/thema/internal/cuetil"

extern pure (cue.Selector).Optional(s) (r)
ghost func nsel(cue.Path) int

// equal up to optionality
fn seleq(a cue.Selector, b cue.Selector) bool {
  a == b || a.Optional() == b.Optional()
}
fn hasprefix(p cue.Path, q cue.Path) bool {
  nsel(q) <= nsel(p) && forall(i, 0, nsel(q), seleq(selat(q, i), selat(p, i)))
}
func SelEq(s1, s2) (r) {
  safe [P21]
  ensures iff(r, seleq(s1, s2))
  ensures [P21] optional: iff(r, seleq(s1, s2))
}
helper pathsAreEq(p1s, p2s) (r) {
  loopinv (k int) 0 <= k && k <= len(p2s) && forall(i, 0, k, seleq(p2s[i], p1s[i]))
  ensures iff(r, len(p1s) == len(p2s) && forall(i, 0, len(p2s), seleq(p2s[i], p1s[i])))
}
func PathsAreEq(p1, p2) (r) {
  safe [P21]
  ensures iff(r, nsel(p1) == nsel(p2) && forall(i, 0, nsel(p2), seleq(selat(p2, i), selat(p1, i))))
  ensures [P21] equal: iff(r, nsel(p1) == nsel(p2) && forall(i, 0, nsel(p2), seleq(selat(p2, i), selat(p1, i))))
}
func PathHasPrefix(p, prefix) (r) {
  safe [P21]
  ensures iff(r, hasprefix(p, prefix))
  ensures [P21] prefix: iff(r, hasprefix(p, prefix))
}
func LastSelectorEq(p, sel) (r) {
  safe [P21]
  panics when nsel(p) == 0
  ensures [P21] last: iff(r, seleq(selat(p, nsel(p)-1), sel))
}
func TrimPathPrefix(path, prefix) (r) {
  safe [P21]
  ensures [P21] other: implies(nsel(path) == 1 || !hasprefix(path, prefix), r == path)
  ensures [P21] trimmed: implies(nsel(path) != 1 && hasprefix(path, prefix), nsel(r) == nsel(path) - nsel(prefix) && forall(i, 0, nsel(r), selat(r, i) == selat(path, nsel(prefix) + i)))
}
func ReplacePathPrefix(p, oldprefix, newprefix) (r) {
  safe [P21]
  ensures [P21] other: implies(nsel(oldprefix) >= nsel(p) || !hasprefix(p, oldprefix), r == p)
  ensures [P21] replaced: implies(nsel(oldprefix) < nsel(p) && hasprefix(p, oldprefix), nsel(r) == nsel(newprefix) + nsel(p) - nsel(oldprefix) && forall(i, 0, nsel(newprefix), selat(r, i) == selat(newprefix, i)) && forall(i, nsel(newprefix), nsel(r), selat(r, i) == selat(p, i - nsel(newprefix) + nsel(oldprefix))))
}
