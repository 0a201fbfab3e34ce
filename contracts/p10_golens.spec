package "github.com/grafana/thema"

// --- the lens calls of one translation. Calls are recorded by the schema they lead to.
fn lcalled(s *schemaDef) bool {
  rec(mapper, n, s) != old(rec(mapper, n, s))
}
// an instance of s (a schema of the lineage, so InstOK)
fn instof(i *Instance, s *schemaDef) bool {
  allocated(i) && i.valid && typeis(i.sch, *schemaDef) && as(i.sch, *schemaDef) == s
}
// the lens call that led to s returned an instance of s
fn lgood(s *schemaDef) bool {
  rec(mapper, err, s) == nil && rec(mapper, r, s) != nil && instof(rec(mapper, r, s), s)
}
// the call that leads to s, from the schema prev
fn lright(s *schemaDef, prev *schemaDef) bool {
  rec(mapper, n, s) == old(rec(mapper, n, s)) + 1
  && typeis(rec(mapper, to, s), *schemaDef) && as(rec(mapper, to, s), *schemaDef) == s
  && rec(mapper, self, s) == lensfor(s.lin, prev.v, s.v).Mapper
  && instof(rec(mapper, inst, s), prev)
}
// the data after the last step into a new major, up to major m
fn majdata(i *Instance, m uint, d cue.Value) bool {
  ite(m == ischema(i).v[0], d == i.raw,
    forall(k, 0, len(ilin(i).allsch), implies(ilin(i).allv[k] == sv(m, 0), d == rec(mapper, r, ilin(i).allsch[k]).raw)))
}
// going backward down to version cur: every call made so far
fn backto(i *Instance, cur SyntacticVersion) bool {
  forall(j, 0, len(ilin(i).allsch), implies(!less(ilin(i).allv[j], cur) && less(ilin(i).allv[j], ischema(i).v),
    lright(ilin(i).allsch[j], ilin(i).allsch[j+1]) && lgood(ilin(i).allsch[j])
    && rec(mapper, inst, ilin(i).allsch[j]) == ite(ilin(i).allv[j+1] == ischema(i).v, i, rec(mapper, r, ilin(i).allsch[j+1]))))
  && forall(s, *schemaDef, implies(!(s.lin == ilin(i) && !less(s.v, cur) && less(s.v, ischema(i).v)), rec(mapper, n, s) == old(rec(mapper, n, s))))
}
// going forward up to version cur
fn upto(i *Instance, cur SyntacticVersion) bool {
  forall(j, 1, len(ilin(i).allsch), implies(ilin(i).allv[j][1] == 0 && less(ischema(i).v, ilin(i).allv[j]) && !less(cur, ilin(i).allv[j]),
    lright(ilin(i).allsch[j], ilin(i).allsch[j-1]) && lgood(ilin(i).allsch[j])
    && majdata(i, ilin(i).allv[j-1][0], rec(mapper, inst, ilin(i).allsch[j]).raw)))
  && forall(s, *schemaDef, implies(!(s.lin == ilin(i) && s.v[1] == 0 && less(ischema(i).v, s.v) && !less(cur, s.v)), rec(mapper, n, s) == old(rec(mapper, n, s))))
}
func (i *Instance) translateGo(to) (inst, lac, err) {
  safe [P09 P10]
  requires InstOK(i)
  requires golens(ilin(i)) && LensOK(ilin(i))
  requires [P17] unlocked: free(ilin(i).rt)
  ensures [P17] released: free(ilin(i).rt)
  maypanicif !hasv(ilin(i), to)
  modifies rec:mapper
  loopinv (s Schema, ti *Instance) typeis(s, *schemaDef) && SchOK(as(s, *schemaDef)) && as(s, *schemaDef).lin == ilin(i) && InstOK(ti) && ti.sch == s
  loopinv (s Schema) ite(less(to, ischema(i).v), implies(hasv(ilin(i), to), !less(as(s, *schemaDef).v, to)), implies(hasv(ilin(i), to), !less(to, as(s, *schemaDef).v)))
  loopinv [P10 P19] (s Schema) ite(less(to, ischema(i).v), !less(ischema(i).v, as(s, *schemaDef).v), !less(as(s, *schemaDef).v, ischema(i).v))
  loopinv [P10 P19] (s Schema, ti *Instance) implies(less(to, ischema(i).v), backto(i, as(s, *schemaDef).v) && ti == ite(as(s, *schemaDef) == ischema(i), i, rec(mapper, r, as(s, *schemaDef))))
  loopinv [P10 P19] (s Schema, ti *Instance) implies(!less(to, ischema(i).v), upto(i, as(s, *schemaDef).v) && majdata(i, as(s, *schemaDef).v[0], ti.raw))
  ensures iff(err == nil, inst != nil)
  ensures implies(err == nil, InstOK(inst) && ilin(inst) == ilin(i) && ischema(inst).v == to && hasv(ilin(i), to))
  ensures lac == nil
  ensures [P09] class: implies(err != nil, inst == nil && errIs(err, terrors.ErrInvalidLens))
  ensures [P10] same: implies(to == ischema(i).v, err == nil && inst == i && recsame(mapper))
  ensures [P10 P19] backward: implies(err == nil && less(to, ischema(i).v), backto(i, to) && inst == rec(mapper, r, ischema(inst)))
  ensures [P10 P19] forward: implies(err == nil && less(ischema(i).v, to), upto(i, to) && majdata(i, to[0], inst.raw))
  ensures [P10] stopped: implies(err != nil, !lgood(ptr(*schemaDef, rec(mapper, last))) && lcalled(ptr(*schemaDef, rec(mapper, last))))
  ensures [P10] stoppedback: implies(err != nil && hasv(ilin(i), to) && less(to, ischema(i).v), forall(j, 0, len(ilin(i).allsch), implies(lcalled(ilin(i).allsch[j]),
    !less(ilin(i).allv[j], to) && less(ilin(i).allv[j], ischema(i).v) && lright(ilin(i).allsch[j], ilin(i).allsch[j+1])
    && rec(mapper, inst, ilin(i).allsch[j]) == ite(ilin(i).allv[j+1] == ischema(i).v, i, rec(mapper, r, ilin(i).allsch[j+1])))))
  ensures [P10] stoppedforward: implies(err != nil && hasv(ilin(i), to) && less(ischema(i).v, to), forall(j, 1, len(ilin(i).allsch), implies(lcalled(ilin(i).allsch[j]),
    ilin(i).allv[j][1] == 0 && less(ischema(i).v, ilin(i).allv[j]) && !less(to, ilin(i).allv[j]) && lright(ilin(i).allsch[j], ilin(i).allsch[j-1])
    && majdata(i, ilin(i).allv[j-1][0], rec(mapper, inst, ilin(i).allsch[j]).raw))))
}
