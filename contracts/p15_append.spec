import cuetil "github.com/grafana/thema/internal/cuetil"

package "github.com/grafana/thema/internal/cuetil"

fn equal(a cue.Value, b cue.Value) bool {
  a.Subsume(b, cue.Raw()) == nil && b.Subsume(a, cue.Raw()) == nil
}
func Equal(val1, val2) (err) {
  safe [P15]
  ensures iff(err == nil, equal(val1, val2))
  ensures [P15] mutual: iff(err == nil, equal(val1, val2))
}

package "github.com/grafana/thema"

// the schema as the user wrote it
fn userschema(s *schemaDef) cue.Value {
  s.ref.LookupPath(cue.ParsePath("schema"))
}
fn sameschema(a *schemaDef, b *schemaDef) bool {
  userschema(a).Subsume(userschema(b), cue.Raw()) == nil && userschema(b).Subsume(userschema(a), cue.Raw()) == nil
}
axiom cue.ParsePath("schema") == cue.MakePath(cue.Str("schema"))

func IsAppendOnly(oldLineage, newLineage) (err) {
  frame [P18]
  safe [P15]
  requires typeis(oldLineage, *baseLineage) && LinOK(linof(oldLineage))
  requires typeis(newLineage, *baseLineage) && LinOK(linof(newLineage))
  loopinv (k int) forall(i, 0, k, sameschema(linof(oldLineage).allsch[i], linof(newLineage).allsch[i]))
  ensures [P15] appendonly: iff(err == nil, len(linof(oldLineage).allsch) <= len(linof(newLineage).allsch)
     && forall(i, 0, len(linof(oldLineage).allsch), sameschema(linof(oldLineage).allsch[i], linof(newLineage).allsch[i])))
}
