#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed as a proof if contracts tagged with it exist and it is not BOUNDED."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/check.py').read()
BOUNDED = set(re.findall(r"'(P\d\d)': '", src.split('BOUNDED =')[1].split('}')[0]))
tags = set()
for f in os.listdir(V + '/contracts'):
    for m in re.finditer(r'\[((?:P\d\d ?)+)\]', open(V + '/contracts/' + f).read()):
        tags |= set(m.group(1).split())
NA = {
 'P25': 'needs a semantics of CUE values and of encoding into reflect types: the property quantifies over all instances of a schema and the decoder is a dependency; no contract within reach of a Go verifier expresses it, and a bounded comparison would be testing',
 'P26': 'needs formal semantics of OpenAPI, JSON Schema, Go and TypeScript documents and of CUE values; the generators are dependencies (cue/encoding, cog, cuetsy)',
}
checks = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in NA:
        continue
    proof = p in tags and p not in BOUNDED
    if proof:
        tech = 'contract-based deductive verification of the Go source (gover: contracts on the real functions, go/ssa symbolic execution, z3/cvc5), failing inputs searched concretely'
        note = 'every obligation of the contracts tagged %s, and of the contracts they rest on, is discharged from the current source on every run; CUE and other dependencies are assumed contracts, listed in the evidence' % p
    elif p in tags:
        tech = 'contracts on the Go part (gover, z3/cvc5); the CUE part by a bounded check of the real code'
        note = 'bounded, not counted as proved: the Go functions are under contract, the CUE code is exercised on generated lineages only'
    else:
        tech = 'bounded check of the real code (stand-in, no contract decides it yet)'
        note = 'bounded, not counted as proved'
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                       technique=tech, level='proof' if proof else 'exploration', level_note=note))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hooks: the contracts live in /verif/contracts and the searches enter /repo by a build overlay. The fix: commits in /repo are listed in known_findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(sum(c['level'] == 'proof' for c in checks), 'proof of', len(checks))
