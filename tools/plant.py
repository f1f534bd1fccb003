"""Confirms a planted bug and runs its check against it, all in a scratch copy of /repo.

  plant.py make ID PROP FILE  < python source defining: edits=[(file, old, new)], needs, breaks, demo
  plant.py try ID [PROP...]   run checks against an existing seeded/ID
  plant.py all                run every seeded bug's check; print a table
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
export PYTHONPATH=/opt/vp/compat:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(dir='/tmp/plant')
    sh('cp -a /repo %s/repo' % d)
    return d, d + '/repo'


def tests(repo, out):
    d = os.path.dirname(repo)
    s = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd %s ' % repo)
    s = s.replace('. /opt/vp/env.sh', '. /opt/vp/env.sh\nexport PYTHONPATH=/opt/vp/compat:%s' % repo)
    open(d + '/test.sh', 'w').write(s)
    r = sh('bash %s/test.sh %s' % (d, out))
    res = json.load(open(out))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok = set(res.get('passed') or [])
    return [t for t in stable if t not in ok], r.stdout[-300:]


def check(repo, prop, extra=''):
    r = sh('PHASOR_REPO=%s %s/run.sh %s %s' % (repo, HERE, prop, extra))
    return r.returncode, r.stdout


def make(i, prop):
    ns = {}
    exec(sys.stdin.read(), ns)
    d, repo = copy()
    try:
        for e in ns['edits']:
            f, old, new = e[:3]
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1 or len(e) > 3, (f, s.count(old), old)
            parts = s.split(old)
            k = e[3] if len(e) > 3 else 0
            assert len(parts) > k + 1
            open(p, 'w').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = sh('git -C %s diff' % repo).stdout
        out = os.path.join(SEED, i)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(ns['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=ns['needs'], what_it_breaks=ns['breaks']), open(out + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % out, cwd='/repo')
        b = sh('bash %s/demo.sh' % out, cwd=repo)
        bad, log = tests(repo, d + '/out.json')
        rc, o = check(repo, prop)
        good = a.returncode == 0 and b.returncode != 0 and not bad
        print('%s %s: demo clean %d, demo patched %d, tests %s, check %s -> %s' % (
            i, prop, a.returncode, b.returncode, bad or 'ok', rc, 'KEPT' if good else 'REJECTED'))
        if a.returncode:
            print(a.stdout[-1500:])
        if not b.returncode:
            print(b.stdout[-500:])
        print('   ' + '\n   '.join(l[:400] for l in o.splitlines()[-5:]))
        if not good:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(d)


def run(i, props=None):
    meta = json.load(open(os.path.join(SEED, i, 'meta.json')))
    d, repo = copy()
    try:
        r = sh('git -C %s apply %s/%s/patch.diff' % (repo, SEED, i))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout)
            return
        for p in props or [meta['property']]:
            rc, o = check(repo, p)
            laws = sorted(set(l.split(' broken on')[0] for l in o.splitlines() if ' broken on' in l))
            print('%s %s rc=%d %s' % (i, p, rc, ' '.join(laws)), flush=True)
            if props:
                print(o[-1500:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    os.makedirs('/tmp/plant', exist_ok=True)
    if sys.argv[1] == 'make':
        make(*sys.argv[2:4])
    elif sys.argv[1] == 'try':
        run(sys.argv[2], sys.argv[3:])
    else:
        for i in sorted(os.listdir(SEED)):
            run(i)
