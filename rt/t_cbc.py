"""P22-P24: clustering by committee"""
import itertools
import math
import numpy as np
from scipy.spatial.distance import squareform
from rt.core import kind
from rt.gen import *
from rt.t_calc import close
from nephosem import TypeTokenMatrix
from nephosem.models import cbc

ELS = ['a', 'b', 'c', 'd', 'e', 'é f', 'g']


# ------------------------------------------------------------------------------------------- cleaning
def g_clusters(rng, size):
    n = rng.randint(2, 7)
    out = []
    for _ in range(rng.randint(0, size + 2)):
        k = rng.choice([1, 2, 2, 3, rng.randint(1, n)])
        m = rng.sample(ELS[:n], min(k, n))
        if rng.random() < 0.1 and m: m = m + [m[0]]
        out.append([-1 if len(set(m)) == 1 and rng.random() < 0.9 else rng.choice([0, 0.5, 1, 1, 2, 2.5, 3]), m])
    return {'L': out, 'sets': rng.random() < 0.3}


def x_clusters():
    subs = [list(s) for r in (1, 2, 3) for s in itertools.combinations('abc', r)]
    one = [[sc, s] for s in subs for sc in ((-1, 1) if len(s) == 1 else (0, 1, 2))]
    for r in (0, 1, 2):
        for L in itertools.product(one, repeat=r): yield {'L': list(L), 'sets': False}


@kind('P22', 'cleaning', g_clusters, exhaustive=x_clusters, weight=3)
def _(c):
    L = [(s, set(m) if c['sets'] else list(m)) for s, m in c['L'] if m]
    before = [(s, set(m) if c['sets'] else list(m)) for s, m in L]
    res, singles = cbc.clean_clusters(L)
    if L != before: return 'the candidates were changed'
    order = sorted(range(len(L)), key=lambda i: -L[i][0])
    pos = [i for i in order if L[i][0] > 0]
    want = []
    for r, i in enumerate(pos):
        if any(set(L[j][1]) == set(L[i][1]) for j in pos[:r]): continue
        if any(set(L[j][1]) < set(L[i][1]) for j in pos): continue
        want.append((L[i][0], set(L[i][1])))
    got = [(s, set(m)) for s, m in res]
    if got != want: return 'kept %r, expected %r' % (got, want)
    used = set().union(*[set(L[i][1]) for i in pos]) if pos else set()
    if not c['sets']:
        ws = set(L[i][1][0] for i in order if L[i][0] <= 0) - used
        if set(singles) != ws: return 'single elements %r, expected %r' % (sorted(singles), sorted(ws))
    elif any(x in used for x in singles): return 'a single element is in a cluster'


# ------------------------------------------------------------------------------------------- merging
def g_sims(rng, size):
    n = rng.randint(1, min(size + 1, 9))
    vals = rng.choice([[0.1, 0.35, 0.5, 0.9], [0.0, 0.2, 1.0], None])
    S = [[1.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i): S[i][j] = S[j][i] = rng.choice(vals) if vals else round(rng.random(), 3)
    return {'S': S, 'theta': rng.choice([None, 0.35, 0.5, 0.0, 0.2, 1.0, 2.0])}


@kind('P23', 'merging', g_sims, weight=3)
def _(c):
    n = len(c['S'])
    if n < 1 or any(len(r) != n for r in c['S']): return
    S = np.array(c['S'], dtype=float)
    S0 = S.copy()
    th = 0.35 if c['theta'] is None else c['theta']
    res = cbc.get_merged_committee(S, **({} if c['theta'] is None else {'theta': th}))
    if not (S == S0).all(): return 'the similarities were changed'
    taken = set()
    exp = [i for i in range(n)]
    seen = []
    for i, j in res:
        if i in taken: return 'committee %d is in two results: %r' % (i, res)
        taken.add(i)
        left = [k for k in range(i + 1, n) if k not in taken]
        if j == -1:
            if any(S[i, k] >= th for k in left): return 'committee %d stays alone although %r (threshold %r): %r' % (i, [(k, S[i, k]) for k in left], th, res)
        else:
            if j in taken or j <= i: return 'committee %d merged with %d: %r' % (i, j, res)
            if S[i, j] < th: return 'merged below the threshold: %d %d %r' % (i, j, res)
            if any(S[i, k] > S[i, j] for k in left): return '%d merged with %d although %r is more similar: %r' % (i, j, [k for k in left if S[i, k] > S[i, j]], res)
            taken.add(j)
        if seen and i < seen[-1]: return 'order %r' % res
        seen.append(i)
    if taken != set(range(n)): return 'committees %r are in no result' % sorted(set(range(n)) - taken)


def g_step3(rng, size):
    n, d, k = rng.randint(1, min(size + 2, 7)), rng.randint(1, 4), rng.randint(1, 3)
    row = lambda: [rng.choice([0, 0, 1, 2, 0.5]) for _ in range(d)]
    comms = [rng.sample(ELS[:n], rng.randint(0 if rng.random() < 0.2 else 1, min(n, 3)) if n > 1 else 1) for _ in range(k)]
    return {'m': [row() for _ in range(n)], 'c': [row() for _ in range(k)], 'comms': comms, 'theta': rng.choice([None, 0.25, 0.5, 0.8, 0.0, 0.99])}


@kind('P23', 'residues', g_step3, weight=3)
def _(c):
    n, k = len(c['m']), len(c['c'])
    if n < 1 or k < 1 or len(c['comms']) != k or len(set(len(r) for r in c['m'] + c['c'])) != 1 or not c['m'][0]: return
    M, C = np.array(c['m'], dtype=float), np.array(c['c'], dtype=float)
    th = 0.25 if c['theta'] is None else c['theta']
    E = ELS[:n]
    comms = [list(x) for x in c['comms']]
    R, out = cbc.cbc_step3(E, measmx=M, comms=comms, commx=C, **({} if c['theta'] is None else {'theta': th}))
    if comms != c['comms'] or E != ELS[:n]: return 'the inputs were changed'
    nz = lambda v: v / np.sqrt((v ** 2).sum()) if (v ** 2).sum() else v
    S = np.array([[float(nz(x).dot(nz(y))) for y in C] for x in M])
    if any(abs(x - th) < 1e-9 and th != 0 for x in S.ravel()): return      # rounding decides
    if th == 0 and (abs(S) < 1e-12).any() and (abs(S[abs(S) < 1e-12]) > 0).any(): return
    res = [E[i] for i in range(n) if (S[i] < th).all()]
    if list(R) != res: return 'residues %r, expected %r' % (R, res)
    if len(out) != k: return '%d committees' % len(out)
    for j in range(k):
        if list(out[j][:len(comms[j])]) != comms[j]: return 'committee %d lost members: %r %r' % (j, comms[j], out[j])
        if len(set(out[j])) != len(out[j]): return 'a member twice: %r' % out[j]
    for i in range(n):
        b = [j for j in range(k) if S[i, j] >= S[i].max() - 1e-9]
        inn = [j for j in range(k) if E[i] in out[j] and E[i] not in comms[j]]
        if E[i] in res:
            if inn: return 'residue %r joined %r' % (E[i], inn)
        elif any(j not in b for j in inn) or not any(E[i] in out[j] for j in b): return '%r joined %r, most similar to %r' % (E[i], inn, b)


# ------------------------------------------------------------------------------------------- scores
def x_addr():
    for n in range(2, 13): yield {'n': n}


@kind('P24', 'addresses', None, exhaustive=x_addr)
def _(c):
    n = c['n']
    A = np.arange(n * (n - 1) // 2)
    Q = squareform(A)
    for i in range(n):
        for j in range(n):
            if i == j:
                try: cbc.square_to_condensed(i, j, n)
                except AssertionError: continue
                return 'diagonal accepted'
            if cbc.square_to_condensed(i, j, n) != Q[i, j]: return 'address of %d, %d of %d is %r' % (i, j, n, cbc.square_to_condensed(i, j, n))


def g_scores(rng, size):
    n = rng.randint(2, min(size + 2, 9))
    sim = [rng.choice([0.1, 0.5, 1.0, round(rng.random(), 3)]) for _ in range(n * (n - 1) // 2)]
    ids = list(range(n)); rng.shuffle(ids)
    k = rng.randint(1, n)
    cl = {}
    for i in ids: cl.setdefault(str(rng.randint(1, k)), []).append(i)
    return {'n': n, 'sim': sim, 'clusters': cl, 'metric': rng.choice(['with_size', 'with_size_sqrt', 'without_size', None]), 'highest': rng.random() < 0.5}


@kind('P24', 'scores', g_scores, weight=3)
def _(c):
    n = c['n']
    if n < 2 or len(c['sim']) != n * (n - 1) // 2: return
    cl = {int(k): v for k, v in c['clusters'].items() if v}
    if not cl: return
    sim = np.array(c['sim'], dtype=float)
    Q = squareform(sim)
    mt = c['metric'] or 'with_size'
    ref = {}
    for k, m in cl.items():
        if len(m) == 1: ref[k] = -1.0; continue
        avg = np.mean([Q[a, b] for a, b in itertools.combinations(m, 2)])
        ref[k] = avg * {'with_size': len(m), 'with_size_sqrt': math.sqrt(len(m)), 'without_size': 1}[mt]
        x = cbc.average_similarity(m, sim)
        if not close(x, avg): return 'average of %r is %r, expected %r' % (m, x, avg)
    av = cbc.cluster_avgsim(cl, sim)
    if set(av) != set(cl) or any(len(cl[k]) == 1 and av[k] != 1 for k in cl): return 'averages %r of %r' % (av, cl)
    kw = {'metric': mt} if c['metric'] else {}
    if c['highest']:
        if max(ref.values()) <= 0: return
        res = cbc.score_cluster(dict(cl), sim, highest=True, **kw)
        if len(res) != 1: return '%d clusters' % len(res)
        s, m = res[0]
        if not close(s, max(ref.values())): return 'highest score %r of %r' % (s, ref)
        if not any(list(m) == cl[k] and close(ref[k], s) for k in cl): return 'cluster %r does not score %r' % (m, s)
    else:
        res = cbc.score_cluster(dict(cl), sim, **kw)
        if len(res) != len(cl): return '%d entries for %d clusters' % (len(res), len(cl))
        for (s, m), k in zip(res, cl):
            if list(m) != cl[k] or not close(s, ref[k]): return 'entry %r, expected %r' % ((s, m), (ref[k], cl[k]))
    if (np.array(c['sim']) != sim).any(): return 'the similarities were changed'


def g_near(rng, size):
    n = rng.randint(3, 7)
    d = [round(rng.uniform(0.05, 1.0), 3) for _ in range(n * (n - 1) // 2)]
    labs = ELS[:n][:]; rng.shuffle(labs)
    return {'n': n, 'd': d, 'labs': labs, 'e': rng.randrange(n), 'k': rng.randint(2, n - 1), 't': rng.choice(['median', 'mean', 0.3, 0.6, 2.0]), 'metric': rng.choice(['with_size', 'with_size_sqrt', 'without_size'])}


@kind('P24', 'clusters of similar elements', g_near)
def _(c):
    n = c['n']
    if len(c['d']) != n * (n - 1) // 2 or len(c['labs']) != n or n < 3: return
    D = squareform(np.array(c['d'], dtype=float))
    t = TypeTokenMatrix(D.copy(), list(c['labs']), list(c['labs']), deepcopy=False)
    e = c['labs'][c['e']]
    near = t.most_similar(e, k=c['k'])
    res = cbc.cluster_similar_elements(e, distmx=t, k=c['k'], prune_method='distance', t=c['t'], score_metric=c['metric'], highest_score=False)
    members = [x for _, m in res for x in m]
    if sorted(members) != sorted(near): return 'the clusters %r are no division of %r' % (res, near)
    ix = {w: i for i, w in enumerate(c['labs'])}
    for s, m in res:
        if len(m) == 1: w = -1.0
        else: w = np.mean([1 - D[ix[a], ix[b]] for a, b in itertools.combinations(m, 2)]) * {'with_size': len(m), 'with_size_sqrt': math.sqrt(len(m)), 'without_size': 1}[c['metric']]
        if not close(s, w): return 'score of %r is %r, expected %r' % (m, s, w)


def g_sub(rng, size):
    g = ELS[:]; rng.shuffle(g)
    s = rng.sample(g, rng.randint(1, len(g)))
    return {'g': g, 's': s, 'c': [rng.randrange(len(s)) for _ in range(rng.randint(0, len(s)))]}


@kind('P24', 'indices', g_sub)
def _(c):
    if any(i >= len(c['s']) for i in c['c']) or any(x not in c['g'] for x in c['s']): return
    r = cbc.sub2glb(list(c['c']), list(c['s']), list(c['g']))
    if [c['g'][i] for i in r] != [c['s'][i] for i in c['c']]: return 'indices %r of %r' % (r, c)
