package "github.com/grafana/thema"

helper searchSynv(a, x) (r) {
  requires sorted: forall(i, 0, len(a), forall(j, i+1, len(a), less(a[i], a[j])))
  ensures 0 <= r && r <= len(a)
  ensures forall(i, 0, r, less(a[i], x))
  ensures forall(i, r, len(a), !less(a[i], x))
}
helper synvExists(a, x) (r) {
  requires sorted: forall(i, 0, len(a), forall(j, i+1, len(a), less(a[i], a[j])))
  ensures iff(r, exists(i, 0, len(a), a[i] == x))
}
helper isValidLineage(lin) () {
  requires typeis(lin, *baseLineage) && allocated(linof(lin)) && linof(lin).validated
}
helper getLinLib(lin) (r) {
  requires typeis(lin, *baseLineage) && allocated(linof(lin))
  ensures r == linof(lin).rt
}
helper (lin *baseLineage) schema(v) (r) {
  requires LinOK(lin)
  requires exists(i, 0, len(lin.allv), lin.allv[i] == v)
  ensures exists(i, 0, len(lin.allv), lin.allv[i] == v && lin.allsch[i] == r)
}
interface Lineage.Schema(v) (s, err) {
  frame [P18]
  for *baseLineage
  safe [P07]
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  ensures [P07] found: implies(exists(i, 0, len(linof(this).allv), linof(this).allv[i] == v), err == nil && s != nil)
  ensures [P07] notfound: implies(!exists(i, 0, len(linof(this).allv), linof(this).allv[i] == v), s == nil && err != nil && errIs(err, terrors.ErrVersionNotExist))
  ensures implies(err != nil, s == nil && !exists(i, 0, len(linof(this).allv), linof(this).allv[i] == v))
  ensures implies(err == nil, typeis(s, *schemaDef) && exists(i, 0, len(linof(this).allv), linof(this).allsch[i] == as(s, *schemaDef) && linof(this).allv[i] == v))
}
interface Lineage.First() (s) {
  frame [P18]
  for *baseLineage
  safe [P07]
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  ensures [P07] first: typeis(s, *schemaDef) && as(s, *schemaDef) == linof(this).allsch[0]
}
interface Lineage.Latest() (s) {
  frame [P18]
  for *baseLineage
  safe [P07]
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  ensures typeis(s, *schemaDef) && as(s, *schemaDef) == linof(this).allsch[len(linof(this).allsch)-1]
  ensures [P07] highest: forall(i, 0, len(linof(this).allv), !less(as(s, *schemaDef).v, linof(this).allv[i]))
}
interface Lineage.All() (l) {
  frame [P18]
  for *baseLineage
  safe [P07]
  requires typeis(this, *baseLineage) && LinOK(linof(this))
  loopinv (k int, s []Schema) k <= len(linof(this).allsch) && len(s) == len(linof(this).allsch) && forall(i, 0, k, typeis(s[i], *schemaDef) && as(s[i], *schemaDef) == linof(this).allsch[i])
  ensures len(l) == len(linof(this).allsch)
  ensures [P18] copy: fresh(l)
  ensures [P07 P15 P18] ordered: forall(i, 0, len(l), typeis(l[i], *schemaDef) && as(l[i], *schemaDef) == linof(this).allsch[i])
  ensures fresh(l)
}

helper (sch *schemaDef) successor() (r) {
  requires SchOK(sch)
  ensures r == nil && sch == sch.lin.allsch[len(sch.lin.allsch)-1]
    || r != nil && sch != sch.lin.allsch[len(sch.lin.allsch)-1] && exists(i, 1, len(sch.lin.allsch), sch.lin.allsch[i-1] == sch && sch.lin.allsch[i] == r)
}
helper (sch *schemaDef) predecessor() (r) {
  requires SchOK(sch)
  ensures r == nil && sch == sch.lin.allsch[0]
    || r != nil && sch != sch.lin.allsch[0] && exists(i, 1, len(sch.lin.allsch), sch.lin.allsch[i] == sch && sch.lin.allsch[i-1] == r)
}
interface Schema.Successor() (s) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  safe [P07]
  requires ISch(this)
  ensures [P07] iff(s == nil, base(this) == base(this).lin.allsch[len(base(this).lin.allsch)-1])
  ensures s == nil || typeis(s, *schemaDef) && SchOK(base(s)) && base(s).lin == base(this).lin && exists(i, 1, len(base(this).lin.allsch), base(this).lin.allsch[i-1] == base(this) && base(this).lin.allsch[i] == base(s))
  ensures implies(s == nil, base(this) == base(this).lin.allsch[len(base(this).lin.allsch)-1])
}
interface Schema.Predecessor() (s) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  safe [P07]
  requires ISch(this)
  ensures [P07] iff(s == nil, base(this) == base(this).lin.allsch[0])
  ensures s == nil || typeis(s, *schemaDef) && SchOK(base(s)) && base(s).lin == base(this).lin && exists(i, 1, len(base(this).lin.allsch), base(this).lin.allsch[i] == base(this) && base(this).lin.allsch[i-1] == base(s))
  ensures implies(s == nil, base(this) == base(this).lin.allsch[0])
}
interface Schema.LatestInMajor() (s) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  safe [P07]
  requires ISch(this)
  // versions do not exceed the schema's position, so they cannot reach 2^63
  ensures typeis(s, *schemaDef) && SchOK(base(s)) && base(s).lin == base(this).lin
  ensures [P07] latest: base(s).v[0] == base(this).v[0] && forall(i, 0, len(base(this).lin.allv), implies(base(this).lin.allv[i][0] == base(this).v[0], base(this).lin.allv[i][1] <= base(s).v[1]))
}
interface Schema.Version() (v) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  safe [P07]
  requires ISchRaw(this)
  ensures v == base(this).v
}
interface Schema.Lineage() (l) {
  frame [P18]
  for *schemaDef, *unaryTypedSchema
  safe [P07]
  requires ISch(this)
  ensures typeis(l, *baseLineage) && linof(l) == base(this).lin
}
func SchemaP(lin, v) (s) {
  frame [P18]
  safe [P07]
  requires typeis(lin, *baseLineage) && LinOK(linof(lin))
  panics when !exists(i, 0, len(linof(lin).allv), linof(lin).allv[i] == v)
  ensures typeis(s, *schemaDef) && exists(i, 0, len(linof(lin).allv), linof(lin).allsch[i] == as(s, *schemaDef) && linof(lin).allv[i] == v)
}
func LatestVersion(lin) (v) {
  frame [P18]
  safe [P07]
  requires typeis(lin, *baseLineage) && LinOK(linof(lin))
  ensures v == linof(lin).allv[len(linof(lin).allv)-1]
}
func LatestVersionInSequence(lin, seqv) (v, err) {
  frame [P18]
  safe [P07]
  requires [P07] MajOK(linof(lin))
  requires typeis(lin, *baseLineage) && LinOK(linof(lin))
  ensures [P07] iff(err == nil, exists(i, 0, len(linof(lin).allv), linof(lin).allv[i][0] == seqv))
  ensures [P07] latest: implies(err == nil, v[0] == seqv && exists(i, 0, len(linof(lin).allv), linof(lin).allv[i] == v) && forall(i, 0, len(linof(lin).allv), implies(linof(lin).allv[i][0] == seqv, linof(lin).allv[i][1] <= v[1])))
  ensures [P07] implies(err != nil, errIs(err, terrors.ErrVersionNotExist))
}
