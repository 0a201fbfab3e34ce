package "github.com/grafana/thema"
import cue "cuelang.org/go/cue"

// where the lacunas of step k start in the flat list: defined by what AsList requires of it
ghost func lacstart(int, int) int
pred LacStarts(lac multiTranslationLacunas) {
  lacstart(baseof(lac), 0) == 0 && forall(k, 0, len(lac), lacstart(baseof(lac), k+1) == lacstart(baseof(lac), k) + len(lac[k].Lac))
  && forall(k, 0, len(lac), len(lac[k].Lac) >= 0 && (lac[k].Lac == nil || allocated(lac[k].Lac)))
}
interface TranslationLacunas.AsList() (l) {
  for multiTranslationLacunas, flatLacunas
  safe [P23]
  requires implies(typeis(this, multiTranslationLacunas), LacStarts(as(this, multiTranslationLacunas)))
  loopinv (k int, l []Lacuna) 0 <= k && k <= len(as(this, multiTranslationLacunas)) && len(l) == lacstart(baseof(as(this, multiTranslationLacunas)), k)
  loopinv (k int, l []Lacuna) l == nil || fresh(l)
  loopinv (k int) forall(a, 0, k+1, 0 <= lacstart(baseof(as(this, multiTranslationLacunas)), a) && lacstart(baseof(as(this, multiTranslationLacunas)), a) <= lacstart(baseof(as(this, multiTranslationLacunas)), k))
  loopinv (k int, l []Lacuna) forall(a, 0, k, forall(j, 0, len(as(this, multiTranslationLacunas)[a].Lac), l[lacstart(baseof(as(this, multiTranslationLacunas)), a) + j] == as(this, multiTranslationLacunas)[a].Lac[j]))
  ensures [P23] count: implies(typeis(this, multiTranslationLacunas), len(l) == lacstart(baseof(as(this, multiTranslationLacunas)), len(as(this, multiTranslationLacunas))))
  ensures [P23] each: implies(typeis(this, multiTranslationLacunas), forall(a, 0, len(as(this, multiTranslationLacunas)), forall(j, 0, len(as(this, multiTranslationLacunas)[a].Lac), l[lacstart(baseof(as(this, multiTranslationLacunas)), a) + j] == as(this, multiTranslationLacunas)[a].Lac[j])))
  ensures [P23] flat: implies(typeis(this, flatLacunas), len(l) == len(as(this, flatLacunas)) && forall(j, 0, len(l), l[j] == as(this, flatLacunas)[j]))
}
