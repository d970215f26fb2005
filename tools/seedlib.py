"""helpers to write and validate planted bugs: make(id, prop, file, [(old, new)..], demo, needs, breaks) and judge(ids)"""
import json, os, re, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export HOME=$W TMPDIR=$W PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
/opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
STABLE = None


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def copy():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    sh('cp -a /repo %s/repo' % d)
    return d, d + '/repo'


def tests(repo):
    """names of the tests that pass"""
    w = tempfile.mkdtemp(prefix='seedt_', dir='/tmp'); os.mkdir(w + '/home')
    sh('timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors -W ignore --tb=no -o junit_family=xunit2 --junitxml=%s/j.xml nephosem/tests' % w,
       cwd=repo, env={'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': repo, 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'HOME': w + '/home'})
    rc, out = sh('/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml' % (w, w))
    res = json.load(open(w + '/o.json'))
    shutil.rmtree(w)
    return res


def passed(res):
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if 'passed' in x and isinstance(x['passed'], list): out.update(map(str, x['passed'])); return
            for k, v in x.items():
                if v in ('passed', 'pass', 'PASS', True): out.add(k)
                else: walk(v)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(res)
    return out


def build(repo):
    rc, out = sh('sed s,/repo,%s,g /opt/vp/check_build.py > %s/../cb.py && /opt/venv/bin/python %s/../cb.py' % (repo, repo, repo), cwd=repo, env={'PYTHONPATH': repo, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'HOME': os.path.dirname(repo)})
    return rc, out


def make(id, prop, edits, demo, needs, breaks, run_tests=True):
    d, repo = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(repo, f); s = open(p).read()
            assert s.count(old) == 1, '%s: %d occurrences of %r' % (id, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', cwd=repo)
        out = os.path.join(SEED, id)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        ok = True
        rc, o = sh(out + '/demo.sh', cwd=repo)
        if rc == 0: ok = False; print(id, 'demo does NOT fail with patch', o[-500:])
        else: bug = o.strip().split('\n')[-1][:150]
        rc, o = sh(out + '/demo.sh', cwd='/repo')
        if rc != 0: ok = False; print(id, 'demo FAILS on the clean tree', o[-800:])
        rc, o = build(repo)
        if rc != 0: ok = False; print(id, 'does not build', o[-500:])
        if ok and run_tests:
            base = json.load(open('/opt/vp/BASELINE.json'))
            bp, pp = passed(base), passed(tests(repo))
            if bp - pp: ok = False; print(id, 'tests fail', sorted(bp - pp)[:5])
        # lines of my own fix commits must not be touched
        rc, bl = sh('git rev-list --count HEAD', cwd='/repo')
        for f, old, new in edits:
            rc, o = sh('git blame -s --abbrev=12 34e9741..HEAD -- %s' % f, cwd='/repo')
            for l in o.split('\n'):
                if l and not l.startswith('^'):
                    t = l.split(')', 1)[1][1:]
                    if t.strip() and len(t.strip()) > 3 and t in old and t not in new: print(id, 'WARNING touches own line:', t)
        print(id, 'OK' if ok else 'REJECTED', bug if ok else '')
        if not ok: shutil.rmtree(out)
        return ok
    finally: shutil.rmtree(d)


def judge(ids=None, tier='quick'):
    res = {}
    for id in ids or sorted(os.listdir(SEED)):
        meta = json.load(open('%s/%s/meta.json' % (SEED, id)))
        d, repo = copy()
        try:
            rc, o = sh('git apply %s/%s/patch.diff' % (SEED, id), cwd=repo)
            assert rc == 0, o
            rc, o = sh('python3-vt /verif/check.py %s --tier %s' % (meta['property'], tier), cwd='/verif', env={'PYDV_REPO': repo})
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            print(id, meta['property'], rc, 'CAUGHT' if rc == 1 and v else 'missed', v[:2], o.strip().split('\n')[-1][:200])
        finally: shutil.rmtree(d)


if __name__ == '__main__':
    judge(sys.argv[1:])
