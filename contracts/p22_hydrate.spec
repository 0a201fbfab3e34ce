package "github.com/grafana/thema"
import cue "cuelang.org/go/cue"

ghost func hydrated(cue.Value, cue.Value) cue.Value
ghost func hydrateErr(cue.Value, cue.Value) error
ghost func dehydrated(cue.Value, cue.Value) cue.Value
ghost func dehydrateErr(cue.Value, cue.Value) error
helper doHydrate(sch, data) (v, err) {
  trusted "recurses over CUE values, whose meaning is not axiomatised: the search of P22 checks it (bounded)"
  ensures v == hydrated(sch, data) && err == hydrateErr(sch, data)
}
helper doDehydrate(sch, data) (v, same, err) {
  trusted "recurses over CUE values, whose meaning is not axiomatised: the search of P22 checks it (bounded)"
  ensures v == dehydrated(sch, data) && err == dehydrateErr(sch, data)
}
func (i *Instance) Hydrate() (r) {
  frame [P18]
  safe [P18 P22]
  requires InstWF(i)
  panics when !i.valid
  ensures InstOK(r) && (r == i || fresh(r))
  ensures [P18] new: r == i || fresh(r)
  ensures [P22] failed: implies(hydrateErr(schdef(ischema(i).ref), i.raw) != nil, r == i)
  ensures [P22] same: implies(hydrateErr(schdef(ischema(i).ref), i.raw) == nil, fresh(r) && r.valid && r.sch == i.sch && r.name == i.name && r.raw == hydrated(schdef(ischema(i).ref), i.raw))
}
func (i *Instance) Dehydrate() (r) {
  frame [P18]
  safe [P18 P22]
  requires InstWF(i)
  panics when !i.valid
  ensures InstOK(r) && (r == i || fresh(r))
  ensures [P18] new: r == i || fresh(r)
  ensures [P22] failed: implies(dehydrateErr(schdef(ischema(i).ref), i.raw) != nil, r == i)
  ensures [P22] same: implies(dehydrateErr(schdef(ischema(i).ref), i.raw) == nil, fresh(r) && r.valid && r.sch == i.sch && r.name == i.name && r.raw == dehydrated(schdef(ischema(i).ref), i.raw))
}
