#!/usr/bin/env python3
"""seedtool.py verify ID... : confirms a planted bug (applies, builds, passes the stable tests, demo flips).
   seedtool.py catch ID [PROP] : runs the property's quick check with the bug applied."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def clean():
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo dirty'

def verify(i):
    d = '%s/seeded/%s' % (V, i)
    clean()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    a = sh('bash %s/demo.sh' % d, cwd=R)
    if a.returncode != 0:
        print(i, 'DEMO FAILS ON UNCHANGED TREE', a.stdout[-800:]); return
    if sh('git -C /repo apply %s/patch.diff' % d).returncode != 0:
        print(i, 'DOES NOT APPLY'); return
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode != 0:
            print(i, 'DOES NOT BUILD', b.stdout[-800:]); return
        sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        o = json.load(open('/tmp/seed-out.json'))
        missing = base - set(o['passed'])
        c = sh('bash %s/demo.sh' % d, cwd=R)
        print(i, 'tests broken: %d %s' % (len(missing), sorted(missing)[:3]), 'demo with bug: %d (%s)' % (c.returncode, c.stdout.strip()[-200:]), 'OK' if not missing and c.returncode else 'REJECT')
    finally:
        sh('git -C /repo checkout -- .'); sh('git -C /repo clean -fdq')

def catch(i, prop=None):
    d = '%s/seeded/%s' % (V, i)
    prop = prop or json.load(open(d + '/meta.json'))['property']
    clean()
    assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
    try:
        r = sh('python3 check.py %s quick' % prop, cwd=V)
        tail = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'note', prop))]
        print(i, prop, r.returncode, ' / '.join(tail)[:400])
    finally:
        sh('git -C /repo checkout -- .'); sh('git -C /repo clean -fdq')

for x in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
    (verify if sys.argv[1] == 'verify' else catch)(x)
