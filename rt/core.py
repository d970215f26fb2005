"""Runtime contract checks on the real code (labelled bounded): generators and reference oracles.

Run as  /opt/venv/bin/python -m rt.core PROPERTY SEED SECONDS SHARD NSHARDS   (PYTHONPATH=/verif:/repo, HOME=scratch)
Every case is a JSON value; check(case) returns None when the contract holds and a message otherwise, so that a failing
case can be stored and replayed with  python -m rt.core --replay FILE.
"""
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
REPO = os.environ.get('PYDV_REPO', '/repo')


class Kind(object):
    def __init__(self, name, gen, check, exhaustive=None, weight=1.0, dedup=False):
        self.name, self.gen, self.check, self.exhaustive, self.weight = name, gen, check, exhaustive, weight


KINDS = {}      # property -> [Kind]


def kind(prop, name, gen, exhaustive=None, weight=1.0):
    def deco(check):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            KINDS.setdefault(p, []).append(Kind(name, gen, check, exhaustive, weight))
        return check
    return deco


def own_fault(tb):
    """is the innermost repository/library frame missing, i.e. did the harness itself fail?"""
    frames = traceback.extract_tb(tb)
    return not any(f.filename.startswith(REPO + os.sep) for f in frames)


def run_case(k, case):
    """('ok'|'violation'|'harness', message)"""
    out = io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = out
    try:
        msg = k.check(json.loads(json.dumps(case)))
    except SystemExit as e:
        msg = 'the code exited (%s)' % e
    except Exception as e:
        tb = sys.exc_info()[2]
        text = '%s: %s' % (type(e).__name__, e)
        last = traceback.extract_tb(tb)[-1]
        if own_fault(tb): return 'harness', text + ' at %s:%d' % (last.filename, last.lineno)
        msg = 'raised %s (%s:%d)' % (text, os.path.basename(last.filename), last.lineno)
    finally:
        sys.stdout, sys.stderr = so, se
    if msg is None or msg is True: return 'ok', ''
    return 'violation', str(msg)


def load(prop):
    d = os.path.dirname(os.path.abspath(__file__))
    errs = []
    for f in sorted(os.listdir(d)):
        if f.startswith('t_') and f.endswith('.py'):
            try: importlib.import_module('rt.' + f[:-3])
            except Exception as e:
                errs.append('%s: %s' % (f, traceback.format_exc()[-600:]))
    return errs


def shrink(k, case, msg, deadline):
    """greedy removal of list elements / dict entries while the case still violates"""
    def variants(c, path=()):
        if isinstance(c, list):
            for i in range(len(c)): yield c[:i] + c[i + 1:]
            for i, x in enumerate(c):
                for v in variants(x): yield c[:i] + [v] + c[i + 1:]
        elif isinstance(c, dict):
            for q in list(c):
                if isinstance(c[q], (list, dict)):
                    for v in variants(c[q]): yield dict(c, **{q: v})
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for v in variants(case):
            if time.time() > deadline: break
            r, m = run_case(k, v)
            if r == 'violation' and m.split(' ')[0:3] == msg.split(' ')[0:3]:
                case, msg, progress = v, m, True
                break
    return case, msg


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        load(d['property'])
        for k in KINDS.get(d['property'], []):
            if k.name == d['kind']:
                print(run_case(k, d['case']))
        return
    prop, seed, secs, shard, nsh = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    t0 = time.time()
    errs = load(prop)
    ks = KINDS.get(prop, [])
    res = {'cases': {}, 'exhaustive': {}, 'harness': [], 'violations': [], 'errors': errs}
    rng = random.Random('%s/%d/%d' % (prop, seed, shard))
    bad = set()

    def one(k, case):
        r, m = run_case(k, case)
        res['cases'][k.name] = res['cases'].get(k.name, 0) + 1
        if r == 'harness':
            if len(res['harness']) < 5: res['harness'].append('%s: %s' % (k.name, m))
            bad.add(k.name)
        elif r == 'violation':
            case, m = shrink(k, case, m, time.time() + 5)
            res['violations'].append({'property': prop, 'kind': k.name, 'case': case, 'message': m})
            bad.add(k.name)

    # bounded exhaustive parts first
    for k in ks:
        if k.exhaustive is None or os.environ.get('RT_RANDOM_ONLY'): continue
        n = 0
        done = True
        for j, case in enumerate(k.exhaustive()):
            if j % nsh != shard: continue
            if k.name in bad: break
            if time.time() - t0 > secs * 3 + 20: done = False; break
            one(k, case); n += 1
        res['exhaustive'][k.name] = [n, done]
    rk = [k for k in ks if k.gen is not None]
    rnd = 0
    while rk and time.time() - t0 < secs or (rnd < 3 and rk):
        rnd += 1
        size = min(1 + rnd // 6, 12)
        for k in rk:
            if k.name in bad: continue
            for _ in range(max(1, int(3 * k.weight))):
                try: case = k.gen(rng, size)
                except Exception as e:
                    res['harness'].append('%s: generator: %s' % (k.name, e)); bad.add(k.name); break
                one(k, case)
                if k.name in bad: break
        if all(k.name in bad for k in rk): break
        if time.time() - t0 > secs * 2 + 20: break
    res['seconds'] = time.time() - t0
    print('\nRTRESULT ' + json.dumps(res))


if __name__ == '__main__':
    from rt import core      # one copy of the module
    core.main()
