package "github.com/grafana/thema"

// the text of a version
fn vstr(v SyntacticVersion) string {
  strconv.FormatUint(v[0], 10) + "." + strconv.FormatUint(v[1], 10)
}
extern pure strings.Split(s, sep) (l) {
  ensures len(l) >= 1
}
extern pure strconv.ParseUint(s, base, bits) (n, err)
extern pure strconv.FormatUint(n, base) (s)
// decimal numbers contain no dot, and ParseUint reads what FormatUint writes
axiom split: forall(a, uint64, forall(b, uint64, let(l, strings.Split(strconv.FormatUint(a, 10) + "." + strconv.FormatUint(b, 10), "."), len(l) == 2 && l[0] == strconv.FormatUint(a, 10) && l[1] == strconv.FormatUint(b, 10))))
axiom parse: forall(a, uint64, implies(a < 4294967296, res(0, strconv.ParseUint(strconv.FormatUint(a, 10), 10, 32)) == a && res(1, strconv.ParseUint(strconv.FormatUint(a, 10), 10, 32)) == nil))

// two base-10 32-bit numbers joined by one dot
fn wellformed(s string) bool {
  len(strings.Split(s, ".")) == 2 && res(1, strconv.ParseUint(strings.Split(s, ".")[0], 10, 32)) == nil && res(1, strconv.ParseUint(strings.Split(s, ".")[1], 10, 32)) == nil
}

func (sv SyntacticVersion) Less(osv) (r) {
  safe [P03]
  ensures [P03] lexicographic: iff(r, less(sv, osv))
  ensures r == less(sv, osv)
}
func (sv SyntacticVersion) String() (s) {
  safe [P03]
  ensures [P03] text: s == vstr(sv)
}
func ParseSyntacticVersion(s) (v, err) {
  safe [P03]
  ensures [P03] accepts: iff(err == nil, wellformed(s))
  ensures [P03] value: implies(err == nil, v == sv(res(0, strconv.ParseUint(strings.Split(s, ".")[0], 10, 32)), res(0, strconv.ParseUint(strings.Split(s, ".")[1], 10, 32))))
  ensures [P03] refused: implies(err != nil, v == sv(0, 0) && errIs(err, terrors.ErrMalformedSyntacticVersion))
  ensures [P03] roundtrip: forall(a, uint, forall(b, uint, implies(a < 4294967296 && b < 4294967296 && s == vstr(sv(a, b)), err == nil && v == sv(a, b))))
  lemma [P03] irreflexive: forall(a, SyntacticVersion, !less(a, a))
  lemma [P03] transitive: forall(a, SyntacticVersion, forall(b, SyntacticVersion, forall(c, SyntacticVersion, implies(less(a, b) && less(b, c), less(a, c)))))
  lemma [P03] total: forall(a, SyntacticVersion, forall(b, SyntacticVersion, a == b || less(a, b) || less(b, a)))
}
helper synv(v) (r) {
  requires len(v) <= 2
  ensures r == sv(ite(len(v) > 0, v[0], 0), ite(len(v) > 1, v[1], 0))
}
func SV(seqv, schv) (r) {
  safe [P03]
  ensures r == sv(seqv, schv)
}
