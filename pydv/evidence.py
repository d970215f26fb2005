"""evidence/<property>.json, from what this run did"""
import json
import os

LEVELS = {}

ASSUME = [
    'machine arithmetic treated as mathematical: Python floats are modelled as real numbers, numpy integers as unbounded integers',
    'the Python semantics of the pydv engine (values, references, exceptions, iteration order of dicts as an arbitrary enumeration) is trusted',
    'the SMT solvers z3 and cvc5 are trusted; no proof terms are rechecked',
    'logging, timing, progress bars and warnings are treated as having no effect',
    'type annotations of the contract (the shapes of the inputs) are preconditions: other input types are not covered by the proof',
]


def level(prop):
    try:
        m = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'proof'


def write(verif, prop, tier, seed, proof, obls, backends, cases, exh, harness, violations, kf, wall):
    ext = sorted(set(x for r in proof for x in r.get('external', [])))
    ass = sorted(set(x for r in proof for x in r.get('assumptions', []) or []))
    fns = sorted(set(f for r in proof for f in r.get('functions', [])))
    inl = sorted(set(f for r in proof for f in r.get('inlined', [])) - set(fns))
    secs = sum(o['seconds'] for o in obls)
    lv = level(prop)
    cov = {
        'obligations': len(obls),
        'discharged': sum(1 for o in obls if o['status'] == 'proved'),
        'discharged_by_backend': backends,
        'solver_seconds': round(secs, 2),
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, tier),
        'trusted_base': ['z3 5.x (python bindings)', 'cvc5 1.1.2', 'pydv verification-condition generator (/verif/pydv)'] +
                        ['assumed contract: ' + e for e in ext],
        'functions_under_contract': fns,
        'functions_verified_by_inlining': inl,
        'contracts': [{'contract': r['contract'], 'target': r['target'], 'obligations': len(r['obligations']), 'paths': r.get('paths'),
                       'seconds': r['seconds'], 'error': r['error'], 'vacuous': r['vacuous']} for r in proof],
        'not_discharged': [o['name'] for o in obls if o['status'] != 'proved'],
        'extraction': 'functions are parsed from the current source text of /repo/nephosem on every run; nothing is copied by hand. '
                      'Dropped: docstrings, comments, decorators timeit, logging calls.',
        'bounded_runtime_checks': {'note': 'executions of the real code against reference oracles; bounded, not counted as proved',
                                   'cases': cases, 'exhaustive_small_scopes': exh, 'not_applicable': harness},
        'evaluations': sum(cases.values()),
    }
    if lv != 'proof':
        cov['explanation'] = 'contracts of the functions within reach are discharged; the rest of the property is covered by the bounded runtime contract checks listed'
        cov['distinct_nontrivial'] = sum(cases.values())
        cov['rule'] = 'seeded random and small exhaustive inputs for each check kind; every case is run on the real code and compared with a reference oracle'
        cov['samples'] = [{'kind': k, 'cases': n} for k, n in sorted(cases.items())][:5] or [{'kind': 'none'}]
    d = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': lv, 'coverage': cov,
         'assumptions': ASSUME + ass, 'wall_s': round(wall, 2), 'violations': len(violations), 'known_findings': kf}
    os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
    json.dump(d, open(os.path.join(verif, 'evidence', prop + '.json'), 'w'), indent=1)
