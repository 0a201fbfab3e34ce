From e4d57b50d8395479ad9fa700fcf0e260040e58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:23 +0000
Subject: [PATCH 01/15] fix: LatestInMajor returned the following major's first
 schema, or panicked on the last major

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index b685310..484822f 100644
--- a/schema.go
+++ b/schema.go
@@ -137,7 +137,7 @@ func (sch *schemaDef) predecessor() *schemaDef {
 // within this Schema's major version. If the receiver Schema is the latest, it
 // will return itself.
 func (sch *schemaDef) LatestInMajor() Schema {
-	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})]
+	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})-1]
 }
 
 // Underlying returns the cue.Value that represents the underlying CUE #SchemaDef.
-- 
2.43.0


From dc3640c8a6f11f4ab4deada7877161187900d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:23 +0000
Subject: [PATCH 02/15] fix: #Lineage._counts was wrong for lineages with four
 or more major versions

---
 lineage.cue | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineage.cue b/lineage.cue
index 418e442..f0b52c2 100644
--- a/lineage.cue
+++ b/lineage.cue
@@ -123,14 +123,14 @@ import (
 	if len(SS) > 1 {
 		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
 		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
-			_pos[i+1] - list.Sum(list.Slice(_pos, 0, i+1))
+			_pos[i+1] - idx
 		}, len(SS) - _pos[len(_pos)-1]]
 
 		// The following approach to the above:
 		//
 		//		let pos = [0, for i, sch in SS[1:] if SS[i].version[0] < sch.version[0] { i+1 }]
 		//		_counts: [for i, idx in pos[:len(pos)-1] {
-		//			pos[i+1]-list.Sum(pos[:i+1])
+		//			pos[i+1]-idx
 		//		}, len(SS)-pos[len(pos)-1]]
 		//
 		// causes the following cue internals panic:
-- 
2.43.0


From 5782b367abf298b0e9fcacbe8de11cb88dfd6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:23 +0000
Subject: [PATCH 03/15] fix: BindLineage accepted duplicate, non-sequential and
 non-zero-based schema versions

---
 bind.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bind.go b/bind.go
index 572cfc3..1c9db59 100644
--- a/bind.go
+++ b/bind.go
@@ -111,6 +111,26 @@ func (ml *maybeLineage) checkGoValidity(cfg *bindConfig) error {
 		previous = sch
 	}
 
+	return ml.checkVersionsAreSequential()
+}
+
+// Schema versions are algorithmically determined: the first is always 0.0, and
+// each successor increments either the minor or the major version by one.
+func (ml *maybeLineage) checkVersionsAreSequential() error {
+	for i, v := range ml.allv {
+		if i == 0 {
+			if v != synv() {
+				return errors.Mark(mkerror(ml.schlist[i].ref.LookupPath(pathSch), "first schema version must be %s, got %s", synv(), v), terrors.ErrInvalidSchemasOrder)
+			}
+			continue
+		}
+
+		prev := ml.allv[i-1]
+		if v != synv(prev[0], prev[1]+1) && v != synv(prev[0]+1) {
+			return errors.Mark(mkerror(ml.schlist[i].ref.LookupPath(pathSch), "schema version %s does not directly follow schema version %s", v, prev), terrors.ErrInvalidSchemasOrder)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f3605bc2856f5d3c2c813f02301306086ea89a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:57 +0000
Subject: [PATCH 04/15] fix: lacunas emitted by CUE lenses failed the
 translation, and never reached its caller

---
 translate.cue | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/translate.cue b/translate.cue
index c92e5e3..591e207 100644
--- a/translate.cue
+++ b/translate.cue
@@ -40,6 +40,18 @@ import "list"
 			to:     TV
 			result: *steps[len(steps)-1].result | I
 		}
+
+		// The lacunas emitted by each of the steps that emitted any, in the order the
+		// steps were taken, with the version of the schema each step translated to.
+		lacunas: [ for step in steps if len(step.lacunas) > 0 {
+			v: step.to
+			lacunas: [ for lac in step.lacunas {
+				sourceFields: lac.sourceFields
+				targetFields: lac.targetFields
+				message:      lac.message
+				type:         lac.type.id
+			}]
+		}]
 	}
 	out: {
 		steps: [
@@ -72,7 +84,7 @@ import "list"
 					to:   _lens.to
 					// TODO initial input isn't necessarily unified with schema - does that make translated output meaningfully different?
 					result: {_lens.result, schdef._#schema}
-					lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 				}]
 
 				// Final value excludes first element (initial input) from accum
@@ -115,7 +127,7 @@ import "list"
 						to:   schdef.version
 						//						result: {_lens.result, schdef._#schema, {lidx: lensidx}}
 						result: {_lens.result, schdef._#schema}
-						lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 						// Crossing a major version. The forward lens explicitly defined in the schema
 						// provides the mapping algorithm.
 					}
-- 
2.43.0


From ec372deae3787cd4878646dcfbec4442df19676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:13 +0000
Subject: [PATCH 05/15] fix: Hydrate and Dehydrate worked against the whole
 #SchemaDef instead of the schema in it

---
 instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index ec03f9a..b75e323 100644
--- a/instance.go
+++ b/instance.go
@@ -60,7 +60,7 @@ func (i *Instance) Hydrate() *Instance {
 	i.check()
 
 	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying(), i.raw)
+	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
@@ -82,7 +82,7 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
-	ni, _, err := doDehydrate(i.sch.Underlying(), i.raw)
+	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From 8c233a78fb7cb4caa34a173ac2794ca5d29de609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:28 +0000
Subject: [PATCH 06/15] fix: AsSuccessor and AsPredecessor dereferenced nil at
 the ends of the lineage

---
 instance.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index b75e323..ac6aea3 100644
--- a/instance.go
+++ b/instance.go
@@ -97,12 +97,15 @@ func (i *Instance) Dehydrate() *Instance {
 }
 
 // AsSuccessor translates the instance into the form specified by the successor
-// schema.
+// schema. An error is returned if the instance is already of the last schema.
 func (i *Instance) AsSuccessor() (*Instance, TranslationLacunas, error) {
 	i.check()
 	// If it's a minor version upgrade, we can safely shortcut and just create
 	// a new instance
 	nsch := i.Schema().Successor()
+	if nsch == nil {
+		return nil, nil, errors.Mark(errors.Newf("schema %s has no successor", i.Schema().Version()), terrors.ErrVersionNotExist)
+	}
 	if nsch.Version()[0] == i.Schema().Version()[0] {
 		ni := new(Instance)
 		*ni = *i
@@ -113,10 +116,14 @@ func (i *Instance) AsSuccessor() (*Instance, TranslationLacunas, error) {
 }
 
 // AsPredecessor translates the instance into the form specified by the predecessor
-// schema.
+// schema. An error is returned if the instance is already of the first schema.
 func (i *Instance) AsPredecessor() (*Instance, TranslationLacunas, error) {
 	i.check()
-	return i.Translate(i.sch.Predecessor().Version())
+	psch := i.Schema().Predecessor()
+	if psch == nil {
+		return nil, nil, errors.Mark(errors.Newf("schema %s has no predecessor", i.Schema().Version()), terrors.ErrVersionNotExist)
+	}
+	return i.Translate(psch.Version())
 }
 
 // Underlying returns the cue.Value representing the data contained in the Instance.
-- 
2.43.0


From 22d51545e1a7d3efea2a0ca3ef79f8ab67d97096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:13 +0000
Subject: [PATCH 07/15] fix: Validate panicked on data that is an error without
 a path

---
 validate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index c4bfdf9..4f988ba 100644
--- a/validate.go
+++ b/validate.go
@@ -274,11 +274,16 @@ func splitTokens(poslist []token.Pos) (schpos, datapos []token.Pos) {
 
 func trimThemaPath(parts []string) []string {
 	for i, s := range parts {
-		if s == "schemas" {
+		if s == "schemas" && len(parts) >= i+3 {
 			return parts[i+3:]
 		}
 	}
 
+	// The input data may itself be an error that has no path
+	if len(parts) == 0 {
+		return parts
+	}
+
 	// Otherwise, it's one of the defpath patterns - eliminate first element
 	return parts[1:]
 }
-- 
2.43.0


From 533d80df6f578caed5257fbb0bda44a310e0f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:02 +0000
Subject: [PATCH 08/15] fix: BindLineage accepted duplicate CUE lenses

---
 bind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bind.go b/bind.go
index 1c9db59..d16f5b2 100644
--- a/bind.go
+++ b/bind.go
@@ -362,7 +362,7 @@ func doCheck(prev, curr *lensVersionDef) error {
 			terrors.ErrInvalidLensesOrder)
 	}
 
-	if prev.to == curr.to && curr.from.Less(prev.from) {
+	if prev.to == curr.to && !prev.from.Less(curr.from) {
 		return errors.Mark(
 			errors.Errorf("lens version [to: %s, from: %s] is not greater than previous lens version [to: %s, from: %s]", curr.to, curr.from, prev.to, prev.from),
 			terrors.ErrInvalidLensesOrder)
-- 
2.43.0


From d40857c60c3171601411e2c61b1ba76bfa52e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:16 +0000
Subject: [PATCH 09/15] fix: TrimPathPrefix stripped the selectors of a prefix
 that matched only in part

---
 internal/cuetil/path.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/internal/cuetil/path.go b/internal/cuetil/path.go
index 1f519b3..9500e74 100644
--- a/internal/cuetil/path.go
+++ b/internal/cuetil/path.go
@@ -5,20 +5,13 @@ import "cuelang.org/go/cue"
 // TrimPathPrefix strips the provided prefix from the provided path, if the
 // prefix exists.
 //
-// If path and prefix are equivalent, and there is at least one additional
-// selector in the provided path.
+// A path with a single selector is returned as is.
 func TrimPathPrefix(path, prefix cue.Path) cue.Path {
 	sels, psels := path.Selectors(), prefix.Selectors()
-	if len(sels) == 1 {
+	if len(sels) == 1 || !PathHasPrefix(path, prefix) {
 		return path
 	}
-	var i int
-	for ; i < len(psels) && i < len(sels); i++ {
-		if !SelEq(psels[i], sels[i]) {
-			break
-		}
-	}
-	return cue.MakePath(sels[i:]...)
+	return cue.MakePath(sels[len(psels):]...)
 }
 
 // ReplacePathPrefix replaces oldprefix with newprefix if p begins with oldprefix.
-- 
2.43.0


From ab53797323e9f4cc87c40087429f6dc0983eb5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:41 +0000
Subject: [PATCH 10/15] fix: the reason given for an erroneous forward Go lens
 was inverted

---
 bind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bind.go b/bind.go
index d16f5b2..e803c30 100644
--- a/bind.go
+++ b/bind.go
@@ -309,7 +309,7 @@ func (ml *maybeLineage) checkGoLensCompleteness() error {
 			} else {
 				// forward lenses
 				// either a minor lens was provided, or non-sequential versions connected
-				if lens.To[0] != lens.From[0] {
+				if lens.To[0] == lens.From[0] {
 					fmt.Fprintf(b, "\t%s (minor version upgrades are handled automatically)", elid)
 				} else {
 					fmt.Fprintf(b, "\t%s (%s is successor of %s, not %s)", elid, ml.allv[searchSynv(ml.allv, elid.From)+1], elid.From, elid.To)
-- 
2.43.0


From 67fb1e4d9e0ea0603f260ad1bbebee123d0421ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:09 +0000
Subject: [PATCH 11/15] fix: Translate with Go lenses overwrote the instances
 it had passed to the lenses

---
 instance.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index ac6aea3..0ab7675 100644
--- a/instance.go
+++ b/instance.go
@@ -269,8 +269,7 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 	lensmap := i.Schema().Lineage().(*baseLineage).lensmap
 
 	sch := i.Schema()
-	ti := new(Instance)
-	*ti = *i
+	ti := i
 	for sch.Version() != to {
 		var nsch Schema
 		if to.Less(from) {
@@ -304,7 +303,7 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 				panic(fmt.Sprintf("unreachable - error on minor version upgrade: %s", err))
 			}
 		}
-		*ti = *rti
+		ti = rti
 		sch = nsch
 	}
 
-- 
2.43.0


From 6b3e50eb312e6149ce5e6d4bf8d427abd9009cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:22 +0000
Subject: [PATCH 12/15] fix: Translate accepted instances of other lineages
 from Go lenses

---
 instance.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instance.go b/instance.go
index 0ab7675..20d853d 100644
--- a/instance.go
+++ b/instance.go
@@ -290,12 +290,16 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
+			//  - that schema is in the lineage being translated within
 			if rti == nil {
 				return nil, nil, fmt.Errorf("lens returned a nil instance")
 			}
 			if rti.Schema().Version() != nsch.Version() {
 				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
 			}
+			if rti.Schema().Lineage() != nsch.Lineage() {
+				return nil, nil, fmt.Errorf("lens returned an instance of a schema from a different lineage than %s", nsch.Lineage().Name())
+			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
 			rti, _, err = ti.AsSuccessor()
-- 
2.43.0


From 71268d375d678df11e7e786a602caaef22eec8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:06 +0000
Subject: [PATCH 13/15] fix: not all errors returned by Translate were children
 of ErrInvalidLens

---
 instance.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/instance.go b/instance.go
index 20d853d..e458b5c 100644
--- a/instance.go
+++ b/instance.go
@@ -249,17 +249,23 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	// Check that the result is concrete by trying to marshal/export it as JSON
 	_, err = json.Marshal(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		return nil, nil, invalidLens(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
 	}
 
 	// Ensure the result is a valid instance of the target schema
 	inst, err := newsch.Validate(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		return nil, nil, invalidLens(err, terrors.ErrLensResultIsInvalidData)
 	}
 	return inst, lac, err
 }
 
+// invalidLens marks err with a particular class of lens error, and with their
+// common parent, [terrors.ErrInvalidLens].
+func invalidLens(err, class error) error {
+	return errors.Mark(errors.Mark(err, class), terrors.ErrInvalidLens)
+}
+
 func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacunas, error) {
 	from := i.Schema().Version()
 	if to == from {
@@ -285,20 +291,20 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			mlid := lid(sch.Version(), nsch.Version())
 			rti, err = lensmap[mlid].Mapper(ti, nsch)
 			if err != nil {
-				return nil, nil, fmt.Errorf("error executing %s migration: %w", mlid, err)
+				return nil, nil, errors.Mark(fmt.Errorf("error executing %s migration: %w", mlid, err), terrors.ErrInvalidLens)
 			}
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
 			//  - that schema is in the lineage being translated within
 			if rti == nil {
-				return nil, nil, fmt.Errorf("lens returned a nil instance")
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned a nil instance"), terrors.ErrInvalidLens)
 			}
 			if rti.Schema().Version() != nsch.Version() {
-				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version()), terrors.ErrInvalidLens)
 			}
 			if rti.Schema().Lineage() != nsch.Lineage() {
-				return nil, nil, fmt.Errorf("lens returned an instance of a schema from a different lineage than %s", nsch.Lineage().Name())
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of a schema from a different lineage than %s", nsch.Lineage().Name()), terrors.ErrInvalidLens)
 			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
-- 
2.43.0


From bfe54203fd4cbad805b67cb4511ee2f7d291c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:56 +0000
Subject: [PATCH 14/15] fix: only treat a reference to #Lineage of the thema
 package as already unified

Any definition that happened to be named #Lineage made BindLineage skip the
unification with thema.#Lineage, so values that are not lineages were bound
(or panicked later on).
---
 lineage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lineage.go b/lineage.go
index 6511269..eab7269 100644
--- a/lineage.go
+++ b/lineage.go
@@ -69,8 +69,8 @@ func BindLineage(v cue.Value, rt *Runtime, opts ...BindOption) (Lineage, error)
 	if vlist := cuetil.AppendSplit(orig, cue.AndOp, nil); len(vlist) > 1 {
 		others := make([]cue.Value, 0, len(vlist))
 		for _, av := range vlist {
-			_, path := av.ReferencePath()
-			if path.String() != "#Lineage" {
+			root, path := av.ReferencePath()
+			if path.String() != "#Lineage" || !isThemaPackage(root) {
 				others = append(others, av)
 			}
 		}
@@ -152,6 +152,13 @@ func BindLineage(v cue.Value, rt *Runtime, opts ...BindOption) (Lineage, error)
 	return lin, nil
 }
 
+// isThemaPackage reports whether v is the root of the thema CUE package, as
+// opposed to some other package that happens to also declare a #Lineage.
+func isThemaPackage(v cue.Value) bool {
+	bi := v.BuildInstance()
+	return bi != nil && bi.ImportPath == "github.com/grafana/thema"
+}
+
 func isValidLineage(lin Lineage) {
 	switch tlin := lin.(type) {
 	case nil:
-- 
2.43.0


From 0a829217e62e152321a3cd6dcb588fc731b21ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:54 +0000
Subject: [PATCH 15/15] fix: release the runtime lock if decoding a new typed
 value panics

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 484822f..cfcf366 100644
--- a/schema.go
+++ b/schema.go
@@ -213,8 +213,8 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	tsch.newfn = func() T {
 		nt := new(T)
 		rt.rl()
+		defer rt.ru()
 		sch.Underlying().LookupPath(pathSchDef).Decode(nt) //nolint:gosec,errcheck
-		rt.ru()
 		return *nt
 	}
 
-- 
2.43.0

