package "github.com/grafana/thema"
import cue "cuelang.org/go/cue"

// CUE struct fields: the iterator of Fields walks listLen(fieldsOf(v)) of them
ghost func fieldsOf(cue.Value) cue.Value
ghost func fieldsErr(cue.Value) error
ghost func itSel(cue.Value, int) cue.Selector
extern pure (cue.Selector).String(s) (r)
fn exlist(s *schemaDef) cue.Value {
  fieldsOf(s.ref.LookupPath(cue.MakePath(cue.Str("examples"))))
}
interface Schema.Examples() (m) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  safe [P18]
  requires ISch(this)
  panics when fieldsErr(base(this).ref.LookupPath(cue.MakePath(cue.Str("examples")))) != nil
  loopinv (it cue.Iterator, m map[string]*Instance) itlist(it) == exlist(base(this)) && -1 <= itpos(it) && itpos(it) < listLen(exlist(base(this))) && m != nil && fresh(m)
  loopinv (it cue.Iterator, m map[string]*Instance) forall(k, 0, itpos(it)+1, has(m, itSel(exlist(base(this)), k).String()))
  loopinv (it cue.Iterator, m map[string]*Instance) forall(s, string, implies(has(m, s), allocated(m[s]) && fresh(m[s]) && m[s].valid && m[s].name == s && typeis(m[s].sch, *schemaDef) && as(m[s].sch, *schemaDef) == base(this)))
  loopinv (it cue.Iterator, m map[string]*Instance) forall(s, string, implies(has(m, s), exists(k, 0, itpos(it)+1, s == itSel(exlist(base(this)), k).String() && m[s].raw == itVal(exlist(base(this)), k))))
  ensures [P18] new: fresh(m)
  ensures [P18] all: forall(k, 0, listLen(exlist(base(this))), has(m, itSel(exlist(base(this)), k).String()))
  ensures [P18] own: forall(s, string, implies(has(m, s), fresh(m[s]) && m[s].valid && m[s].name == s && typeis(m[s].sch, *schemaDef) && as(m[s].sch, *schemaDef) == base(this)))
  ensures [P18] only: forall(s, string, implies(has(m, s), exists(k, 0, listLen(exlist(base(this))), s == itSel(exlist(base(this)), k).String() && m[s].raw == itVal(exlist(base(this)), k))))
}
