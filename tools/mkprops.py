#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Validate accepts exactly the concrete, closed instances of the schema",
  "Schema.Validate(data) returns an instance if and only if unifying the schema's closed definition (user schema joined with the lineage's joinSchema) with the data gives an error-free and fully concrete value; otherwise it returns a nil instance and a non-nil error. A returned instance is valid, wraps exactly the data that was passed in, and is bound to the very schema that validated it.",
  ["inputs", "programs"], "every lineage that binds, every schema of it, every data value",
  "Tests sample a few dozen txtar lineages and hand-picked data; the acceptance condition and the instance's bindings must hold for every schema/data pair.",
  ["schema.go", "bind.go"], [("Validate", "schema.go"), ("definition handle", "bind.go checkGoValidity")],
  [("schemaDef.def", "the closed, joined definition data is unified with")], "Schema.Validate, TypedSchema.ValidateTyped")

p("P02", "A validation failure is always reported as ErrInvalidData, never as a panic",
  "Whenever Schema.Validate rejects data, the error it returns satisfies errors.Is(err, ErrInvalidData), and Validate returns normally instead of panicking whatever the shape and the path of the underlying CUE errors (no path, one element, paths through fields called \"schemas\", any number of message arguments of any type). Each CUE error that is reported as a conflict, a missing or an excess field carries exactly the source positions of that CUE error, each on either the schema side (.cue files) or the data side and none lost.",
  ["inputs"], "every list of CUE errors, positions, paths and message arguments",
  "The golden error texts cover a handful of error shapes; CUE decides the shapes, and an index or type assertion that is wrong for one of them is a crash on user data.",
  ["validate.go", "schema.go", "errors/errors.go"], [("mungeValidateErr", "validate.go"), ("splitTokens", "validate.go"), ("trimThemaPath", "validate.go"), ("Unwrap methods", "validate.go")],
  observe="error returned by Schema.Validate")

p("P03", "Versions are ordered lexicographically, and their text form round-trips",
  "SyntacticVersion.Less is the strict lexicographic order on (major, minor): irreflexive, transitive and total. ParseSyntacticVersion accepts exactly the strings of two base-10 32-bit unsigned numbers joined by one dot, returns those two numbers in that order, and otherwise returns an error matching ErrMalformedSyntacticVersion together with version 0.0; formatting a version whose numbers fit in 32 bits and parsing the text returns the same version.",
  ["inputs"], "all pairs and triples of versions; all strings",
  "Table tests list a few versions; ordering and parsing decide schema selection and translation direction for every version that will ever be published.",
  ["surface.go", "impl.go"], [("Less", "surface.go"), ("ParseSyntacticVersion", "surface.go"), ("synv/SV", "impl.go, surface.go")],
  observe="SyntacticVersion.Less, String, ParseSyntacticVersion")

p("P04", "Every bound lineage holds one schema per version, numbered 0.0 on without gaps",
  "A lineage returned by BindLineage contains at least one schema, the first schema has version 0.0, and every further schema's version is its predecessor's with either the minor incremented or the major incremented and the minor reset to 0. Each schema reports the version declared for it in the CUE source, in source order, and reports that lineage as its own; a lineage whose declared versions are out of order, duplicated or have gaps is refused with ErrInvalidSchemasOrder, and one with non-concrete versions with ErrInvalidLineage.",
  ["programs", "inputs"], "every CUE value offered to BindLineage, any number of schemas, every version sequence, every combination of bind options",
  "Test lineages have at most a handful of well-numbered schemas; the invariant has to hold for every lineage because all navigation and translation relies on it.",
  ["bind.go", "lineage.go", "surface.go"], [("checkGoValidity", "bind.go"), ("checkSchemasOrder", "bind.go"), ("checkVersionsAreSequential", "bind.go"), ("BindLineage", "lineage.go")],
  [("baseLineage.allv/allsch", "parallel lists of versions and schemas")], "Lineage.All, Schema.Version, Schema.Lineage")

p("P05", "Minor versions are backward compatible, major versions are not",
  "Unless the caller explicitly asked to skip these checks, BindLineage accepts a lineage only if every schema with a non-zero minor version is backwards compatible with (subsumes) its immediate predecessor, and every schema after the first with minor version 0 is not. Any other lineage is refused with an error matching ErrInvalidLineage, and a lineage satisfying the rule is not refused because of it.",
  ["programs", "inputs"], "every lineage, every adjacent pair of schemas in it",
  "The exemplars and invalid-lineage goldens have two or three adjacent pairs each; the rule is per pair, against the immediate predecessor, for lineages of any length.",
  ["bind.go", "internal/compat/compat.go"], [("checkGoValidity compat check", "bind.go"), ("ThemaCompatible", "internal/compat/compat.go")],
  observe="BindLineage")

p("P06", "BindLineage returns either a usable lineage or a classified error",
  "BindLineage returns a non-nil lineage exactly when it returns a nil error. Values that do not exist are refused with ErrValueNotExist, values lacking a name or schemas field with ErrValueNotALineage, values whose name or schemas is not concrete or which fail CUE validation on their own or unified with #Lineage with ErrInvalidLineage; a lineage that is returned has passed every one of those checks, carries the declared name, and exposes the value unified with #Lineage.",
  ["inputs", "programs"], "every cue.Value and bind option list",
  "The invalid-lineage goldens hold one example per class; skipping one check for some shape of input (already unified with #Lineage, several conjuncts, options set) is invisible to them.",
  ["lineage.go", "bind.go"], [("BindLineage", "lineage.go"), ("checkExists", "bind.go"), ("checkLineageShape", "bind.go"), ("checkNativeValidity", "bind.go")],
  observe="BindLineage")

p("P07", "Schema lookup and navigation agree with the version order",
  "In every bound lineage: Schema(v) returns the schema whose version is v if one exists and otherwise nil with ErrVersionNotExist; First, Latest and All list exactly the lineage's schemas in ascending version order; Successor and Predecessor return the adjacent schema in that order and nil exactly at the ends. LatestInMajor, LatestVersion and LatestVersionInSequence return the highest version of that major (or of the lineage) and none of these calls panics.",
  ["programs", "inputs"], "every bound lineage, every schema in it, every version asked for",
  "Binary search and index arithmetic are sampled at a few positions of short lineages; the first, last and major-boundary positions of arbitrary version shapes are not.",
  ["lineage.go", "schema.go", "surface.go"], [("searchSynv/synvExists", "lineage.go"), ("Schema, First, Latest, All", "lineage.go"), ("successor/predecessor/LatestInMajor", "schema.go"), ("LatestVersion, LatestVersionInSequence, SchemaP", "surface.go")],
  observe="Lineage and Schema interfaces")

p("P08", "ValidateAny picks the oldest schema that accepts the data",
  "Lineage.ValidateAny(data) returns an instance of the schema with the smallest version among those of the lineage that accept the data, wrapping that data, and nil exactly when no schema of the lineage accepts it.",
  ["programs", "inputs"], "every bound lineage of any length and every data value",
  "Which of several accepting schemas is chosen depends on the whole chain; tests use lineages in which one schema accepts.",
  ["lineage.go", "schema.go"], [("ValidateAny", "lineage.go"), ("successor", "schema.go")], observe="Lineage.ValidateAny")

p("P09", "A translation ends in a valid instance of the requested schema, or errors",
  "Instance.Translate(to) without error returns a valid instance of the schema with version `to` in the instance's own lineage, whose data that schema's Validate accepts when the lenses are written in CUE, and lacunas that are not nil in that case; for a version that does not exist it never returns an instance. Every error it returns matches ErrInvalidLens and comes with a nil instance, with ErrLensIncomplete for a non-concrete lens result and ErrLensResultIsInvalidData (and ErrInvalidData) for one the target schema rejects.",
  ["programs", "inputs", "histories"], "every lineage, every pair of versions, every instance, every lens body",
  "Tests translate a few instances through exemplars with correct lenses; what happens with wrong or partial lenses and across arbitrary distances is not sampled.",
  ["instance.go", "runtime.go", "schema.go"], [("Translate", "instance.go"), ("cueArgs.call", "runtime.go"), ("translateGo", "instance.go")], observe="Instance.Translate")

p("P10", "Go lenses are applied one by one along the shortest version path, unskipped",
  "With Go lenses, Translate(to) visits every version between the instance's and `to` in order, one step at a time: each backward step and each step into a new major calls exactly the lens registered for that pair, once, with the previous step's instance and the next schema; a step up one minor version calls no lens and leaves the data unchanged. A lens that errors, returns nil, an instance of another version or of another lineage ends the translation with an error; translating to the instance's own version calls no lens and returns the instance unchanged.",
  ["programs", "histories", "inputs"], "every lineage with Go lenses, every pair of versions, every behaviour of the lens functions",
  "The Go migration tests run one three-version lineage with well-behaved lenses; the step sequence has to be right for every pair of versions in every lineage shape.",
  ["instance.go", "bind.go", "schema.go"], [("translateGo", "instance.go"), ("AsSuccessor", "instance.go"), ("lensmap", "bind.go checkGoLensCompleteness")], observe="calls received by ImperativeLens.Mapper; result of Translate")

p("P11", "Go lenses bind only as the exact set the version sequence calls for",
  "When Go lenses are given, BindLineage accepts them only if they are exactly one non-nil lens from every schema to its predecessor and one from the last schema of each major to the first of the next, and nothing else. Missing lenses give ErrMissingLenses, superfluous ones ErrErroneousLenses, duplicates and nil functions an error, and every accepted lens is the one that is used for its pair of versions.",
  ["programs", "inputs"], "every version sequence and every list of lenses, in any order and with any number of duplicates or extras",
  "The tests drop or add one lens of a fixed three-version lineage; the exactness of the set depends on all combinations of versions and lens lists.",
  ["bind.go", "surface.go"], [("checkGoLensCompleteness", "bind.go"), ("ImperativeLenses", "surface.go")], observe="BindLineage error, Translate")

p("P12", "CUE lenses must be listed in strictly ascending (to, from) order to bind",
  "A lineage whose lenses are written in CUE binds only if each lens's (to, from) version pair is strictly greater, by `to` first and `from` second, than the preceding one's, and is refused with ErrInvalidLensesOrder otherwise; lens versions that cannot be read as versions are refused with ErrInvalidLineage. A lineage with a correctly ordered list is not refused because of the order.",
  ["programs", "inputs"], "every list of CUE lenses of any length",
  "One unordered golden exists; adjacent-pair order must hold at every position for every list, because translation picks lenses by position.",
  ["bind.go"], [("checkLensesOrder", "bind.go"), ("doCheck", "bind.go"), ("newLensVersionDef", "bind.go")], observe="BindLineage")

p("P13", "A version mux accepts data valid at any version and yields its own version",
  "An UntypedMux for schema S decodes the input once and returns: the decoder's error if decoding fails; otherwise, if S accepts the data, the validated instance itself without lacunas; otherwise the result of translating, to S's version, the instance of the newest other schema in the lineage that accepts the data. Only if no schema of the lineage accepts the data does it return the no-match error, which wraps S's own validation error, and a nil instance.",
  ["programs", "inputs"], "every lineage, every schema of it as the target, every decoder and every input",
  "TestMuxers uses one two-version lineage; which schemas are tried, in which order, and that none is skipped only shows with more versions and overlapping schemas.",
  ["vmux/untyped.go", "vmux/mux.go"], [("NewUntypedMux", "vmux/untyped.go"), ("latest/allvstr", "vmux/mux.go")], observe="UntypedMux")

p("P14", "Typed, byte and value muxes do the same as the untyped mux, plus conversion",
  "For the same schema, decoder and input, a TypedMux selects and translates exactly as an UntypedMux does and on success its instance is bound to the mux's typed schema; a ByteMux returns the encoding of the untyped mux's instance and a ValueMux the typed instance's Go value. Errors and lacunas of the underlying step are passed on unchanged, after a decoding, validation or translation error there is no success value and nothing is encoded, an encoder's bytes and error are returned as they are, and no input makes a mux panic.",
  ["programs", "inputs"], "every typed schema and type parameter, every codec, every input",
  "The tests run two typed variants of one lineage; agreement of four implementations must hold on every path through them, including errors.",
  ["vmux/typed.go", "vmux/byte.go", "vmux/value.go", "instance.go"], [("NewTypedMux", "vmux/typed.go"), ("NewByteMux", "vmux/byte.go"), ("NewValueMux", "vmux/value.go")], observe="TypedMux, ByteMux, ValueMux")

p("P15", "IsAppendOnly accepts exactly the extensions of the old lineage",
  "IsAppendOnly(old, new) returns nil if and only if the new lineage has at least as many schemas as the old one and, at every position of the old lineage, the two user-written schemas subsume each other; otherwise it returns an error.",
  ["programs", "inputs"], "every pair of bound lineages of any lengths",
  "The txtar cases change one schema of short lineages; a comparison that skips a position, or compares in one direction only, passes them for most positions.",
  ["lineage.go", "internal/cuetil/equal.go"], [("IsAppendOnly", "lineage.go"), ("Equal", "internal/cuetil/equal.go")], observe="IsAppendOnly")

p("P16", "A typed instance always pairs an instance with a typed schema of its own schema",
  "BindInstanceType returns a typed instance if and only if the typed schema was derived from the very schema the instance is an instance of, and that typed instance wraps that instance and that typed schema; otherwise it returns an error. ValidateTyped accepts and rejects exactly as Validate does, BindType returns a typed schema only if the schema is assignable to the type and decoding raised no error other than missing concreteness, and the typed schema delegates to the schema it was derived from.",
  ["programs", "inputs"], "every type parameter, schema, typed schema and instance",
  "Typed tests use matching pairs; that no mismatching pair can be bound is a statement about all pairs.",
  ["instance.go", "schema.go"], [("BindInstanceType", "instance.go"), ("BindType, ValidateTyped, is, schemaIs", "schema.go")], observe="BindType, BindInstanceType, TypedSchema.ValidateTyped")

p("P17", "The runtime lock is held around CUE evaluation and always released",
  "Validating, binding and calling CUE functions each take the runtime's lock (exclusively for binding and function calls, at least shared for validation and for making new typed values) before they evaluate shared CUE values and hold it throughout. Every public operation of a lineage, schema, instance or mux returns, with a result, an error or a panic, with the lock exactly as it found it, and never takes it while already holding it.",
  ["schedules", "inputs"], "every operation, every control path through it, including error returns and panics",
  "A leaked or doubly taken lock shows only as a deadlock of a later or concurrent operation; the tests take few error paths and almost no concurrent schedules.",
  ["runtime.go", "schema.go", "lineage.go", "instance.go"], [("rl/ru/l/u", "runtime.go"), ("Validate", "schema.go"), ("BindLineage", "lineage.go"), ("cueArgs.make/call", "runtime.go"), ("newfn", "schema.go BindType")],
  [("Runtime.mut", "read-write lock")], "deadlock or data race of concurrent operations")

p("P18", "Lineages, schemas and instances are immutable and cannot be forged",
  "No operation changes a lineage, schema or instance after it was returned to a caller: validating, translating, hydrating, navigating, comparing and muxing leave all existing ones as they were and put results in new objects. Using an Instance that did not come from a successful validation, a translation or the lineage's examples (such as a zero Instance) panics instead of yielding data or a schema, and Examples returns exactly the examples declared for that schema.",
  ["programs", "histories"], "every sequence of operations on shared lineages, schemas and instances",
  "Aliasing damage shows only when an object is used again after an operation that changed it; the tests use each object once.",
  ["instance.go", "schema.go", "lineage.go", "vmux/untyped.go"], [("Instance.check", "instance.go"), ("translateGo, AsSuccessor, Hydrate", "instance.go"), ("Examples", "schema.go")], observe="any previously obtained Lineage, Schema or Instance")

p("P19", "AsSuccessor and AsPredecessor move one schema, keeping data on minor upgrades",
  "AsSuccessor and AsPredecessor return an instance of the adjacent schema of the instance's lineage, exactly as Translate to that version would select, or an error; at the last respectively first schema they return an error matching ErrVersionNotExist. A step up one minor version never errors and keeps the data exactly as it is.",
  ["programs", "inputs"], "every instance of every schema of every lineage",
  "Tests call them in the middle of an exemplar; the ends of the lineage and all minor/major boundaries are not covered.",
  ["instance.go"], [("AsSuccessor", "instance.go"), ("AsPredecessor", "instance.go")], observe="Instance.AsSuccessor, Instance.AsPredecessor")

p("P20", "CUE translation walks the lenses of the right versions, for every lineage shape",
  "For every sequence of version numbers, translating an instance through CUE lenses from any version to any other applies exactly the lens of each backward step and of each step into a new major, in order, and plain unification for each minor step up, and ends with the data those lenses prescribe. The flat index that the CUE code computes for a version is that schema's position in the lineage.",
  ["programs", "inputs"], "all version shapes (number of majors and minors), all pairs of versions",
  "The exemplars have at most two or three majors; the index arithmetic in CUE was wrong from four majors on without any test noticing.",
  ["lineage.cue", "translate.cue"], [("_counts, _basis, _flatidx", "lineage.cue"), ("_forwardLenses, _backwardLenses, _cmpSV", "lineage.cue"), ("#Translate", "translate.cue")], observe="Instance.Translate")

p("P21", "CUE path prefixes are compared and trimmed selector by selector",
  "Two paths are equal if they have equally many selectors that are pairwise equal up to optionality, and a path has a prefix if its leading selectors are equal to it in that sense. Trimming or replacing a prefix changes only a path that has that prefix and keeps the remaining selectors, in order; all other paths come back as they are, and no path makes these operations panic except asking for the last selector of an empty path.",
  ["inputs"], "all paths of any length, all prefixes",
  "There are no tests of these helpers, which decide the names in generated OpenAPI, JSON Schema and Go output.",
  ["internal/cuetil/path.go"], [("TrimPathPrefix, ReplacePathPrefix, PathsAreEq, PathHasPrefix, LastSelectorEq, SelEq", "internal/cuetil/path.go")], observe="names in generated schemas")

p("P22", "Hydrating adds the schema's defaults, dehydrating removes them, both stay valid",
  "Hydrate and Dehydrate return a valid instance of the same schema (or the receiver itself if they cannot proceed) whose data that schema still accepts and leave the receiver unchanged. After Hydrate every field for which the schema specifies a default is present, with the original values kept; after Dehydrate no field equal to its default remains (empty lists apart, which are the default of any list type) and no other data is lost.",
  ["inputs", "programs"], "every instance of every schema",
  "There is no test of hydration at all.",
  ["hydrate.go", "instance.go"], [("Hydrate/Dehydrate", "instance.go"), ("doHydrate/doDehydrate/getDefault/getBranch", "hydrate.go")], observe="Instance.Hydrate, Instance.Dehydrate")

p("P23", "Every lacuna a CUE lens emits on the way is reported, and no other",
  "When a translation through CUE lenses succeeds, the returned lacunas are those of the lenses applied, whose condition holds, in the order of the steps, each with the version its step led to and with its fields, type and message unchanged. Translations along steps without lacunas report none.",
  ["programs", "inputs"], "every lineage, every pair of versions, every lacuna list",
  "No test looks at the lacunas of a translation.",
  ["translate.cue", "instance.go", "lacuna.go"], [("#Translate lacunas", "translate.cue"), ("multiTranslationLacunas.AsList", "instance.go")], observe="TranslationLacunas.AsList")

p("P24", "A file system becomes a loader overlay file by file, under the prefix",
  "ToOverlay adds, for every regular file of the file system and for nothing else, an entry with that file's content under the prefix joined with its path, leaving all other entries as they are. It refuses a relative prefix without adding anything, and passes on the first error of walking, opening or reading.",
  ["inputs", "fault_sequences"], "every file system, prefix and overlay, every read fault",
  "The loader tests use small healthy file systems; faults and arbitrary trees are not covered.",
  ["internal/util/util.go", "load/load.go"], [("ToOverlay", "internal/util/util.go")], observe="load.ToOverlay, the overlay given to the CUE loader")

p("P25", "A schema is assignable to a Go type only if every instance decodes into it",
  "AssignableTo(sch, T) returns nil only if every valid instance of the schema can be decoded into a value of type T without error or loss, and reports a descriptive error otherwise.",
  ["programs", "inputs"], "all schemas and Go types",
  "The table of types and schemas is finite.",
  ["assignable.go"], [("AssignableTo", "assignable.go")], observe="AssignableTo, BindType")

p("P26", "Generated OpenAPI, JSON Schema, Go and TypeScript describe the schema's values",
  "The OpenAPI and JSON Schema documents generated for a schema accept exactly the concrete values the schema accepts (as far as the target language can express it), and the generated Go and TypeScript types can hold all of them.",
  ["programs", "inputs"], "all schemas, all instances",
  "Golden files fix the output for the exemplars only.",
  ["encoding/openapi/oapi.go", "encoding/jsonschema/jschema.go", "encoding/gocode/gen.go", "encoding/typescript/gen.go"], [("GenerateSchema", "encoding/openapi/oapi.go, encoding/jsonschema/jschema.go"), ("GenerateTypesOpenAPI", "encoding/gocode/gen.go"), ("GenerateTypes", "encoding/typescript/gen.go")], observe="generated documents")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
