#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: contract verification of the real code (pydv), then the bounded runtime
contract checks; exit 0 when everything holds, 1 with a VIOLATION line otherwise."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import threading

if os.environ.get('PYTHONHASHSEED') != '0':          # the same facts in the same order on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYDV_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
VENV = '/opt/venv/bin/python'


def known_findings(prop):
    """entries of known_findings.json for this property: {contract obligation names / runtime kinds}"""
    try:
        d = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except IOError:
        return []
    return [f for f in d.get('findings', []) if f['property'] == prop]


def run_runtime(prop, seed, secs, shards, scratch, again=False):
    procs = []
    for k in range(shards):
        home = tempfile.mkdtemp(dir=scratch)
        os.makedirs(os.path.join(home, 'w'))
        env = dict(os.environ, HOME=home, TMPDIR=os.path.join(home, 'w'), PYTHONPATH='%s:%s' % (VERIF, REPO), PYTHONDONTWRITEBYTECODE='1',
                   MPLBACKEND='Agg', PYTHONHASHSEED=str(seed + k), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore', RT_RANDOM_ONLY='1' if again else '')
        procs.append(subprocess.Popen([VENV, '-m', 'rt.core', prop, str(seed), str(secs), str(k), str(shards)], cwd=os.path.join(home, 'w'),
                                      env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True))
    res = []
    for p in procs:
        try:
            out, err = p.communicate(timeout=secs + 60 if again else secs * 4 + 120)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.communicate()
            res.append({'cases': {}, 'exhaustive': {}, 'harness': [], 'violations': [], 'errors': ['timeout'], 'timeout': True})
            continue
        try: os.killpg(p.pid, 9)
        except OSError: pass
        line = [l for l in out.split('\n') if l.startswith('RTRESULT ')]
        if line: res.append(json.loads(line[-1][9:]))
        else: res.append({'cases': {}, 'exhaustive': {}, 'harness': [], 'violations': [], 'errors': ['no result: ' + err[-800:]]})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        if a.replay:
            home = os.path.join(scratch, 'h'); os.makedirs(home)
            env = dict(os.environ, HOME=home, PYTHONPATH='%s:%s' % (VERIF, REPO), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
            sys.exit(subprocess.call([VENV, '-m', 'rt.core', '--replay', os.path.abspath(a.replay)], cwd=home, env=env))
        rc = run(prop, tier, thorough, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, thorough, seed, t0, scratch):
    box = {}

    def rt():
        box['rt'] = run_runtime(prop, seed, 240.0 if thorough else 7.0, 4, scratch)
    th = threading.Thread(target=rt)
    th.start()
    from pydv import task
    try:
        proof = task.run_property(prop, timeout=40.0 if thorough else 12.0, procs=8, wall=3000 if thorough else 600,
                                  stop=lambda: any(r['violations'] for r in box.get('rt', [])))
    except Exception as e:          # the contracts could not even be loaded against this tree
        proof = [{'contract': 'all', 'target': '', 'property': prop, 'obligations': [], 'inlined': [], 'external': [], 'vacuous': False,
                  'functions': [], 'seconds': 0.0, 'error': 'verifier: %s: %s' % (type(e).__name__, e)}]
    th.join()
    rts = box['rt']
    bad = lambda r: r['error'] or r['vacuous'] or any(o['status'] != 'proved' for o in r['obligations'])
    if any(bad(r) for r in proof) and not any(r['violations'] for r in rts):    # look longer for an input that shows the failure
        left = (3400 if thorough else 800) - (time.time() - t0)
        if left > 20: rts = rts + run_runtime(prop, seed + 1000, min(left / 2, 240.0 if thorough else 45.0), 8, scratch, True)
    obls = [o for r in proof for o in r['obligations']]
    failed = []
    for r in proof:
        if r['error']: failed.append({'obligation': r['contract'] + '/verification', 'detail': r['error'], 'target': r['target']})
        elif r['vacuous']: failed.append({'obligation': r['contract'] + '/vacuity', 'detail': 'no state satisfies the assumptions of the contract', 'target': r['target']})
        for o in r['obligations']:
            if o['status'] != 'proved':
                failed.append({'obligation': o['name'], 'detail': '%s: %s' % (o['status'], o['detail'][:1500]), 'target': r['target']})
    viols = [v for r in rts for v in r['violations']]
    harness = sorted(set(h for r in rts for h in r['harness'] + r['errors']))
    found = known_findings(prop)
    kf_lines = []
    rest_v, rest_f = [], []
    for v in viols:
        hit = [f for f in found if f.get('kind') == v['kind'] and f.get('match', '') and f['match'] in v['message']]
        if hit: kf_lines += [hit[0]['what']]
        else: rest_v.append(v)
    for f0 in failed:
        hit = [f for f in found if f.get('obligation') and f['obligation'] == f0['obligation']]
        if hit: kf_lines += [hit[0]['what']]
        else: rest_f.append(f0)
    cases, exh = {}, {}
    for r in rts:
        for k, n in r['cases'].items(): cases[k] = cases.get(k, 0) + n
        for k, (n, done) in r['exhaustive'].items():
            m = exh.get(k, [0, True]); exh[k] = [m[0] + n, m[1] and done]
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.json' % prop)
    if os.path.exists(rpath): os.unlink(rpath)
    rc = 0
    vl = []
    for w in sorted(set(kf_lines)): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if rest_v or rest_f:
        rc = 1
        rep = dict(rest_v[0]) if rest_v else {'property': prop}
        rep['failed_obligations'] = rest_f
        rep['other_violations'] = rest_v[1:5]
        rep['replay'] = 'python3-vt /verif/check.py %s --replay %s' % (prop, rpath) if rest_v else 'python3-vt /verif/check.py %s' % prop
        json.dump(rep, open(rpath, 'w'), indent=1)
        for f0 in rest_f[:8]: print('failed obligation: %s (%s)' % (f0['obligation'], f0['detail'][:200].replace('\n', ' ')))
        if rest_v:
            print('failing input: [%s] %s\n  %s' % (rest_v[0]['kind'], json.dumps(rest_v[0]['case'])[:600], rest_v[0]['message'][:600]))
            line = 'VIOLATION property=%s replay=%s' % (prop, rpath)
        else:
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath)
        print(line)
        vl.append(line)
    backends = {}
    for o in obls: backends[o['backend']] = backends.get(o['backend'], 0) + (1 if o['status'] == 'proved' else 0)
    from pydv import evidence
    evidence.write(VERIF, prop, tier, seed, proof, obls, backends, cases, exh, harness, vl, kf_lines, time.time() - t0)
    if harness: print('note: runtime layer: ' + ' | '.join(harness)[:500])
    print('%s: %d contracts, %d obligations, %d discharged (%s), runtime cases %s, %.1f s' % (
        prop, len(proof), len(obls), sum(1 for o in obls if o['status'] == 'proved'), backends, sum(cases.values()), time.time() - t0))
    return rc


if __name__ == '__main__':
    main()
