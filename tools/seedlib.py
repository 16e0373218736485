"""Makes and validates planted bugs.

mk(id, property, needs, breaks, edits, demo): writes /verif/seeded/<id>/.
CLI: seedlib.py test ID...   (applies each to /repo, builds, tests, demo, check; restores)
"""
import difflib, json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')    # a copy, with a copy of /opt/vp pointing at it
VP = os.environ.get('SEED_VP', '/opt/vp')


def mk(id, prop, needs, breaks, edits, demo, files=None):
    d = os.path.join(VERIF, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    by = {}
    for f, old, new in edits:
        p = f if f.startswith('longitudinal_tomography') else 'longitudinal_tomography/' + f
        cur = by.get(p) or open(os.path.join(REPO, p)).read()
        assert cur.count(old) == 1, (id, p, cur.count(old), old)
        by[p] = cur.replace(old, new)
    out = ''
    for p, new in by.items():
        a = open(os.path.join(REPO, p)).read().splitlines(True)
        b = new.splitlines(True)
        for ln in difflib.unified_diff(a, b, 'a/' + p, 'b/' + p):
            out += ln if ln.endswith('\n') else ln + '\n\\ No newline at end of file\n'
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    orig = 0
    for p, new in by.items():
        b = subprocess.run(['git', '-C', '/repo', 'show', '4cac1f3:' + p], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        cur = open(os.path.join(REPO, p)).read().splitlines()
        orig += sum(1 for ln in difflib.ndiff(cur, new.splitlines()) if ln.startswith('- ') and ln[2:].strip() and ln[2:] in b)
    if not orig:
        print('NO ORIGINAL LINE CHANGED', id)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    for n, c in (files or {}).items():
        open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def sh(cmd, **k):
    if REPO != '/repo':
        k['env'] = dict(os.environ, PYTHONPATH=REPO, SIM_REPO=REPO)
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def test(ids, check=True, suite=True):
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if suite else None
    res = {}
    for i in ids:
        d = os.path.join(VERIF, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        r = res[i] = {'property': meta['property']}
        a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
        if a.returncode:
            r['apply'] = a.stdout
            print(i, r, flush=True)
            continue
        try:
            if suite:
                o = VP.replace('/', '_').join(('/tmp/seedtest', '.json'))
                t = sh('bash %s/test.sh %s' % (VP, o))
                j = json.load(open(o))
                r['tests'] = len(j['passed'])
                miss = base - set(j['passed'])
                if miss:
                    r['failed'] = sorted(miss)[:5]
            else:
                b = sh('bash %s/build.sh' % VP)
                r['build'] = b.returncode
            t0 = time.time()
            try:
                p = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
                r['demo'] = p.returncode
                r['demo_out'] = p.stdout.strip()[-200:]
            except subprocess.TimeoutExpired:
                r['demo'] = 'timeout'
            r['demo_s'] = round(time.time() - t0, 1)
            if check:
                t0 = time.time()
                c = sh('VERIF_SEED=1 VERIF_TIER=quick ./check.py %s --tier quick' % meta['property'], cwd=VERIF)
                r['check'] = c.returncode
                r['check_out'] = [l for l in c.stdout.splitlines() if l.startswith(('violation', 'VIOLATION', 'ERROR'))] or c.stdout[-300:]
                r['check_s'] = round(time.time() - t0, 1)
        finally:
            sh('git -C %s checkout -- .' % REPO)
        print(i, json.dumps(r, indent=1), flush=True)
    sh('bash %s/build.sh' % VP)
    for i in ids:
        d = os.path.join(VERIF, 'seeded', i)
        t0 = time.time()
        p = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
        res[i]['clean'] = p.returncode
        print(i, 'clean demo', p.returncode, '%.1f s' % (time.time() - t0), p.stdout.strip()[-200:] if p.returncode else '')
    print('---')
    for i, r in res.items():
        ok = r.get('demo') not in (0, None, 'timeout') and r.get('clean') == 0 and not r.get('failed') and 'apply' not in r
        print('%-28s %s valid=%s caught=%s' % (i, r['property'], ok, r.get('check') == 1))


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'test':
        fl = [x for x in a if x.startswith('--')]
        ids = [x for x in a[1:] if not x.startswith('--')] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
        test(ids, check='--nocheck' not in fl, suite='--nosuite' not in fl)
