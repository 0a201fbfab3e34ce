package "github.com/grafana/thema"

// k is the position of the instance's schema
fn ipos(i *Instance, k int) bool {
  0 <= k && k < len(ilin(i).allsch) && ilin(i).allsch[k] == ischema(i)
}
// inst, an instance of the schema next to that of i, came about as Translate would have it
fn stepped(i *Instance, inst *Instance) bool {
  ite(golens(ilin(i)), lright(ischema(inst), ischema(i)) && lgood(ischema(inst)) && inst.raw == rec(mapper, r, ischema(inst)).raw && rec(mapper, inst, ischema(inst)).raw == i.raw,
    inst.raw == cueres(i, ischema(inst).v))
}
func (i *Instance) AsSuccessor() (inst, lac, err) {
  frame [P18]
  safe [P19]
  requires InstWF(i)
  requires [P17] unlocked: implies(i.valid, free(ilin(i).rt))
  ensures [P17] released: implies(i.valid, free(ilin(i).rt))
  requires LensOK(ilin(i))
  panics when !i.valid
  modifies rec:mapper
  ensures iff(err == nil, inst != nil)
  ensures last: implies(ischema(i) == ilin(i).allsch[len(ilin(i).allsch)-1], err != nil && errIs(err, terrors.ErrVersionNotExist) && recsame(mapper))
  ensures minor: forall(k, 0, len(ilin(i).allsch)-1, implies(ilin(i).allsch[k] == ischema(i) && ilin(i).allv[k+1][0] == ilin(i).allv[k][0], err == nil && lac == nil && recsame(mapper) && fresh(inst) && inst.raw == i.raw && inst.name == i.name))
  ensures next: implies(err == nil, InstOK(inst) && ilin(inst) == ilin(i) && exists(k, 1, len(ilin(i).allsch), ilin(i).allsch[k-1] == ischema(i) && ischema(inst) == ilin(i).allsch[k]))
  ensures [P19] last: implies(ischema(i) == ilin(i).allsch[len(ilin(i).allsch)-1], err != nil && errIs(err, terrors.ErrVersionNotExist) && recsame(mapper))
  ensures [P19] minor: forall(k, 0, len(ilin(i).allsch)-1, implies(ilin(i).allsch[k] == ischema(i) && ilin(i).allv[k+1][0] == ilin(i).allv[k][0], err == nil && lac == nil && recsame(mapper) && fresh(inst) && inst.raw == i.raw && inst.name == i.name))
  ensures [P19] next: implies(err == nil, InstOK(inst) && ilin(inst) == ilin(i) && exists(k, 1, len(ilin(i).allsch), ilin(i).allsch[k-1] == ischema(i) && ischema(inst) == ilin(i).allsch[k]))
  ensures [P19] translated: implies(err == nil && ischema(inst).v[0] != ischema(i).v[0], stepped(i, inst))
}
func (i *Instance) AsPredecessor() (inst, lac, err) {
  frame [P18]
  safe [P19]
  requires InstWF(i)
  requires [P17] unlocked: implies(i.valid, free(ilin(i).rt))
  ensures [P17] released: implies(i.valid, free(ilin(i).rt))
  requires LensOK(ilin(i))
  panics when !i.valid
  modifies rec:mapper
  ensures iff(err == nil, inst != nil)
  ensures [P19] first: implies(ischema(i) == ilin(i).allsch[0], err != nil && errIs(err, terrors.ErrVersionNotExist) && recsame(mapper))
  ensures [P19] previous: implies(err == nil, InstOK(inst) && ilin(inst) == ilin(i) && exists(k, 1, len(ilin(i).allsch), ilin(i).allsch[k] == ischema(i) && ischema(inst) == ilin(i).allsch[k-1]))
  ensures [P19] translated: implies(err == nil, stepped(i, inst))
}
