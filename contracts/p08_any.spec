package "github.com/grafana/thema"

interface Lineage.ValidateAny(data) (inst) {
  frame [P18]
  for *baseLineage
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  requires [P17] unlocked: free(linof(this).rt)
  ensures [P17] released: free(linof(this).rt)
  loopinv (s *schemaDef) s == nil && forall(i, 0, len(linof(this).allsch), !accepts(linof(this).allsch[i], data))
    || s != nil && exists(i, 0, len(linof(this).allsch), linof(this).allsch[i] == s && forall(j, 0, i, !accepts(linof(this).allsch[j], data)))
  loopinv (k int) forall(i, 0, k, !accepts(linof(this).allsch[i], data))
  loopinv (s Schema) s == nil && forall(i, 0, len(linof(this).allsch), !accepts(linof(this).allsch[i], data))
    || s != nil && typeis(s, *schemaDef) && exists(i, 0, len(linof(this).allsch), linof(this).allsch[i] == as(s, *schemaDef) && forall(j, 0, i, !accepts(linof(this).allsch[j], data)))
  ensures [P08] none: iff(inst == nil, forall(i, 0, len(linof(this).allsch), !accepts(linof(this).allsch[i], data)))
  ensures implies(inst != nil, fresh(inst) && InstOK(inst) && ischema(inst).lin == linof(this))
  ensures [P08] data: implies(inst != nil, inst.raw == data)
  ensures [P08] oldest: implies(inst != nil, exists(i, 0, len(linof(this).allsch), linof(this).allsch[i] == ischema(inst) && accepts(ischema(inst), data) && forall(j, 0, i, !accepts(linof(this).allsch[j], data))))
}
