#!/usr/bin/env python3
"""check.py P07 quick|thorough: decides one property on /repo's working tree.

1. gover (built from /verif/gover) verifies the contracts of /verif/contracts
   against /repo's current source: every obligation of the property's view.
2. The searches of /verif/harness (built into /repo's module by an overlay) run
   the real code against the same statements. They replay what the verifier
   refutes, and stand in, bounded, where no contract reaches.

exit 0: held; exit 1: a VIOLATION line was printed.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
GO_TOOL = '/opt/veriftools/go1.26.10/bin'
GO_REPO = '/opt/veriftools/go1.23.12/bin'
BOUNDED = {'P20': 'lineage.cue and translate.cue are CUE programs', 'P23': 'the lacunas are collected by CUE code (translate.cue)',
           'P22': 'doHydrate and doDehydrate recurse over CUE values whose meaning is not axiomatised'}


def env(gobin):
    e = dict(os.environ)
    e.update(PATH=gobin + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root', GOPATH='/root/go',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOTOOLCHAIN='local', GOFLAGS='-mod=mod',
             GOPROXY='off', GOWORK='off', GOSUMDB='off')
    e.pop('FORCE_VERIFY', None)
    return e


def run(cmd, cwd, gobin, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(gobin), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


class Proof:
    """The verifier's run."""

    def __init__(self, prop, tmp, tier):
        self.res, self.err = None, None
        self.prop, self.tmp, self.tier = prop, tmp, tier
        self.cmd = None
        self.stop_at = None  # set once a failing input is known

    def go(self):
        has = run(['grep', '-l', '-w', self.prop, '-r', V + '/contracts'], V, GO_TOOL, 20)[1].strip()
        if not has:
            return
        exe = os.path.join(self.tmp, 'gover')
        rc, out = run(['go', 'build', '-o', exe, '.'], V + '/gover', GO_TOOL, 400)
        if rc != 0:
            self.err = 'gover does not build: ' + out[-2000:]
            return
        res = os.path.join(self.tmp, 'gover.json')
        tl = '25' if self.tier == 'quick' else '90'
        cmd = [exe, '-repo', REPO, '-specs', V + '/contracts', '-view', self.prop, '-out', res, '-tlim', tl, '-j', '5']
        cmd += ['-budget', '420' if self.tier == 'quick' else '3000']
        self.cmd = ' '.join(['gover'] + cmd[1:])
        log = open(os.path.join(self.tmp, 'gover.log'), 'w+')
        p = subprocess.Popen(cmd, cwd=V, env=env(GO_TOOL), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        end, rc = time.time() + (500 if self.tier == 'quick' else 3600), None
        while rc is None:
            rc = p.poll()
            if rc is None and (time.time() > end or self.stop_at and time.time() > self.stop_at):
                os.killpg(p.pid, 9)
                p.wait()
                rc = 124
            time.sleep(0.05)
        log.seek(0)
        out = log.read()
        if os.path.exists(res):
            self.res = json.load(open(res))
            if self.res.get('load_error'):
                self.err = 'the source could not be loaded: ' + self.res['load_error'][:2000]
                self.res = None
        else:
            self.err = 'gover gave no result (%d): %s' % (rc, out[-2000:])

    def fails(self, kinds):
        return [f for f in (self.res or {}).get('fails') or [] if f['kind'] in kinds]


class Search:
    """The concrete search."""

    def __init__(self, prop, tmp, seed):
        self.prop, self.tmp, self.seed = prop, tmp, seed
        self.exe, self.err = None, None
        self.results, self.viol = [], None
        self.kind = {'P21': 'cuetil', 'P24': 'util'}.get(prop, 'core')
        self.wall = 0.0

    def build(self):
        src = os.path.join(V, 'harness')
        if not os.path.exists(os.path.join(src, self.kind)):
            self.err = 'no search'
            return
        rep = {}
        for d in ('hlib', self.kind):
            for f in glob.glob(os.path.join(src, d, '*.go')):
                rep[os.path.join(REPO, 'internal/zzverif', d, os.path.basename(f))] = f
        ov = os.path.join(self.tmp, 'overlay.json')
        json.dump({'Replace': rep}, open(ov, 'w'))
        exe = os.path.join(self.tmp, 'search')
        rc, out = run(['go', 'build', '-overlay', ov, '-o', exe, './internal/zzverif/' + self.kind], REPO, GO_REPO, 400)
        if rc != 0:
            self.err = 'the search does not build against this tree: ' + out[-1500:]
            return
        self.exe = exe

    def go(self, budget, mult, shards=6, seed=None):
        if not self.exe:
            return
        seed = self.seed if seed is None else seed
        t0 = time.time()
        procs = []
        for s in range(shards):
            out = os.path.join(self.tmp, 'search-%d-%d.json' % (seed, s))
            if os.path.exists(out):
                os.unlink(out)
            cmd = [self.exe, '-p', self.prop, '-seed', str(seed), '-budget', str(budget), '-mult', str(mult), '-shard', str(s), '-shards', str(shards), '-out', out]
            procs.append((subprocess.Popen(cmd, cwd=self.tmp, env=env(GO_REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out))
        for p, out in procs:
            try:
                txt = p.communicate(timeout=budget + 200)[0].decode(errors='replace')
            except subprocess.TimeoutExpired:
                p.kill()
                txt = p.communicate()[0].decode(errors='replace')
                self.err = 'the search did not end'
                continue
            if p.returncode == 3:
                self.err = 'no search for this property'
                continue
            if os.path.exists(out):
                r = json.load(open(out))
                self.results.append(r)
                if r.get('violation') and not self.viol:
                    self.viol = r['violation']
                    self.viol['text'] = txt[:20000]
            elif p.returncode not in (0, None):
                # died without a result: a crash (fatal error, unrecoverable) of the code under test
                if not self.viol:
                    self.viol = {'seed': seed, 'index': -1, 'what': 'the process running the code crashed', 'text': txt[-8000:], 'log': []}
        self.wall += time.time() - t0

    def coverage(self):
        ev = sum(r['evaluations'] for r in self.results)
        return dict(evaluations=ev, distinct_nontrivial=sum(r['distinct_nontrivial'] for r in self.results),
                    rule=self.results[0]['rule'] if self.results else '', samples=sum([r.get('samples') or [] for r in self.results], [])[:4])


def main():
    if sys.argv[1] == 'setup':  # warm the build caches; checks build what they need themselves
        tmp = tempfile.mkdtemp(prefix='verif-setup-')
        for k in ('P01', 'P21', 'P24'):
            s = Search(k, tmp, 1)
            s.build()
            print(k, s.err or 'built')
        rc, out = run(['go', 'build', '-o', os.path.join(tmp, 'gover'), '.'], V + '/gover', GO_TOOL, 600)
        print('gover', rc, out[-500:])
        shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(0)
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        rc = decide(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, tmp, t0):
    proof, search = Proof(prop, tmp, tier), Search(prop, tmp, seed)
    th = threading.Thread(target=proof.go)
    th.start()
    search.build()
    quick = tier == 'quick'
    if quick:
        search.go(60 if prop in BOUNDED else 35, 1, 4)
    else:
        search.go(300, 40, 4)
    if search.viol:
        proof.stop_at = time.time() + 120
    th.join()

    hard = proof.fails(('failed', 'undecided'))
    soft = proof.fails(('unsupported', 'specification', 'unfinished'))
    no_answer = proof.err or soft
    if (hard or no_answer) and not search.viol and search.exe:
        # look harder for a failing input
        for k in range(1, 4 if quick else 10):
            search.go(40, 4, 7, seed=seed * 100 + k)
            if search.viol:
                break

    known = []
    kf = os.path.join(V, 'known_findings.txt')
    if os.path.exists(kf):
        for ln in open(kf):
            m = re.match(r'finding: property=(\S+) (\S+) (.*)', ln.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))

    viols, lines = [], []
    rdir = os.path.join(V, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    if search.viol:
        f = os.path.join(rdir, prop + '-input.json')
        v = search.viol
        json.dump(dict(property=prop, what=v['what'], seed=v['seed'], index=v['index'], log=v['log'], text=v['text'],
                       failed_obligations=hard,
                       replay='go build -overlay <overlay of /verif/harness> ./internal/zzverif/%s && ./%s -p %s -seed %d -index %d' % (search.kind, search.kind, prop, v['seed'], v['index'])),
                  open(f, 'w'), indent=1)
        viols.append('VIOLATION property=%s replay=%s' % (prop, f))
        lines.append(v['text'][:3000])
    elif hard:
        f = os.path.join(rdir, prop + '-obligation.json')
        json.dump(dict(property=prop, failed_obligations=hard, note='no failing input was found by the concrete search (%d cases)' % search.coverage()['evaluations'], command=proof.cmd), open(f, 'w'), indent=1)
        viols.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, f))
        for h in hard[:5]:
            lines.append('%s: %s (%s)' % (h['function'], h['obligation'], h['kind']))

    # evidence
    r = proof.res or {}
    assumptions = []
    cov = {}
    bounded = prop in BOUNDED
    if r:
        cov.update(obligations=r.get('obligations', 0), discharged=r.get('discharged', 0), checker_cmd=proof.cmd,
                   trusted_base=['gover (symbolic executor, contract language and memory model in /verif/gover)', 'go/packages, go/types, go/ssa of golang.org/x/tools', 'z3 4.8.12, z3-new, cvc5'] + ['assumed: ' + t for t in r.get('trusted') or []],
                   by_backend=r.get('by_backend'), solver_s=r.get('solver_s'), verifier_wall_s=r.get('wall_s'),
                   functions=[dict(function=x['function'], obligations=x['obligations'], discharged=x['discharged'], paths=x.get('paths')) for x in r.get('functions') or []],
                   inlined=sorted({i for x in r.get('functions') or [] for i in x.get('inlined') or []}))
        assumptions += ['contract of a dependency, not checked: ' + t for t in r.get('trusted') or []]
        assumptions += ['signed machine integers are treated as mathematical integers (unsigned ones wrap as in Go)',
                        'dependencies do not write memory of this module except through pointers passed to them, and do not panic',
                        'termination is not proved']
    sc = search.coverage()
    if search.results:
        if bounded or not r:
            cov.update({k: v for k, v in sc.items()})
        cov['search'] = dict(label='bounded', cases=sc['evaluations'], distinct=sc['distinct_nontrivial'], rule=sc['rule'], wall_s=round(search.wall, 1), seed=seed)
        if not (bounded or not r):
            cov['search']['samples'] = sc['samples'][:1]
    notes = []
    if proof.err:
        notes.append('proof not available on this tree: ' + proof.err)
    if soft:
        notes.append('contracts that could not be evaluated on this tree (the bounded search decided instead): ' + '; '.join('%s: %s' % (x['function'], x['obligation']) for x in soft[:10]))
    if search.err:
        notes.append('search: ' + search.err)
    if notes:
        cov['notes'] = notes
    if bounded:
        assumptions.append('bounded: ' + BOUNDED[prop])
    full = r and not soft and not proof.err and not bounded
    level = 'proof' if full else 'exploration'
    if not full and 'evaluations' not in cov:
        cov.update(sc)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 2), violations=len(viols)), open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)

    for n in notes:
        print('note:', n[:1500])
    for k, what in known:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k, what))
    print('%s %s: %s of %s obligations discharged in %d functions, %d cases searched, %.0f s' % (
        prop, tier, r.get('discharged', 0), r.get('obligations', 0), len(r.get('functions') or []), sc['evaluations'], time.time() - t0))
    for ln in lines:
        print(ln)
    for v in viols:
        print(v)
    return 1 if viols else 0


main()
