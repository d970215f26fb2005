"""P17-P21, P29: calculations on matrices"""
import math
import numpy as np
import scipy.sparse as sp
from rt.core import kind
from rt.gen import *
from rt.t_matrix import g_mx, mk, cells, stored, snap, shape_ok, arr
from nephosem import TypeTokenMatrix, Vocab
from nephosem.specutils import mxcalc, mxutils


def clip(x): return 1e-10 if x == 0 else 0.9999999999 if x == 1 else x


def reference(meas, o11, o21, o12, o22):
    """defining formulas; o11 joint, o11+o12 the row's (node's) marginal, o11+o21 the column's (collocate's)"""
    n = o11 + o12 + o21 + o22
    r1, r2, c1, c2 = o11 + o12, o21 + o22, o11 + o21, o12 + o22
    e11 = r1 * c1 / n
    if meas in ('pmi', 'ppmi'):
        x = math.log(clip(o11 / clip(e11)))
        return max(x, 0.0) if meas == 'ppmi' else x
    if meas in ('lik', 'llik'):
        p1, p2, p = clip(o11 / c1), clip(o12 / c2), clip(r1 / n)
        ll = lambda k, m, q: k * math.log(q) + m * math.log(1 - q)
        return 2 * (ll(o11, o21, p1) + ll(o12, o22, p2) - ll(o11, o21, p) - ll(o12, o22, p))
    if meas == 'chisq': return n * (o11 * o22 - o12 * o21) ** 2 / (r1 * r2 * c1 * c2)
    if meas == 'zscore': return (o11 - e11) / math.sqrt(e11)
    if meas == 'mi': return math.log2(o11 / e11)
    if meas == 'dice': return 2 * o11 / (r1 + c1)
    if meas == 'deltap': return o11 / r1 - o21 / r2
    if meas == 'deltapColl': return o11 / c1 - o12 / c2
    if meas == 'logratio': return math.log(clip((o11 / r1) / (o21 / r2) if o21 else 1.0))
    raise KeyError(meas)


FUNCS = {'pmi': 'calc_pmi', 'ppmi': 'calc_ppmi', 'lik': 'calc_lik', 'chisq': 'calc_chisq', 'zscore': 'calc_zscore', 'mi': 'calc_mi', 'dice': 'calc_dice',
         'deltap': 'calc_deltap', 'deltapColl': 'calc_deltap_coll', 'logratio': 'calc_log_ratio'}
MEAS = ['pmi', 'ppmi', 'lik', 'llik', 'chisq', 'zscore', 'dice', 'deltap', 'deltapColl', 'logratio']


def close(a, b, rel=1e-6, ab=1e-7):
    if math.isinf(b) or math.isnan(b): return True
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def g_table(rng, size):
    big = rng.choice([5, 50, 1000, 10**6])
    o = [rng.choice([0, 1, rng.randint(0, big)]) for _ in range(4)]
    if o[0] + o[1] == 0: o[0] = 1
    if o[0] + o[2] == 0: o[2] = rng.randint(1, big)
    if o[1] + o[3] == 0: o[3] = rng.randint(1, big)
    if o[2] + o[3] == 0: o[3] = rng.randint(1, big)
    return {'o': o, 'meas': rng.choice(sorted(FUNCS)), 'kind': rng.choice(['int', 'float', 'np'])}


@kind('P17', 'formulas', g_table, weight=6)
def _(c):
    o = c['o']
    if len(o) != 4 or min(o) < 0 or o[0] + o[1] <= 0 or o[0] + o[2] <= 0 or o[1] + o[3] <= 0 or o[2] + o[3] <= 0: return
    if c['meas'] == 'mi' and o[0] == 0: return
    want = reference(c['meas'], *[float(x) for x in o])
    a = {'int': o, 'float': [float(x) for x in o], 'np': [np.int64(x) for x in o]}[c['kind']]
    got = getattr(mxcalc, FUNCS[c['meas']])(*a)
    n, mx = float(sum(o)), float(max(o))
    scale = {'chisq': 1e-6, 'lik': 1e-5 + 1e-9 * n}.get(c['meas'], 1e-7)
    if not abs(got - want) <= scale * (1 + abs(want)): return '%s(o11=%r, o21=%r, o12=%r, o22=%r) is %r, its formula gives %r' % ((c['meas'],) + tuple(o) + (got, want))
    if c['meas'] != 'mi':
        got = mxcalc.pairwise_association(*a, meas=c['meas'])
        if not abs(got - want) <= scale * (1 + abs(want)): return 'pairwise_association %s is %r, formula %r' % (c['meas'], got, want)


def g_assoc(rng, size):
    m = g_mx(rng, size, fmts=['csr', 'csr', 'csc', 'coo'])
    for q in m['cells']: q[2] = abs(q[2])
    extra = [rng.randint(0, 9) for _ in m['rows']]
    extrac = [rng.randint(0, 9) for _ in m['cols']]
    pr = list(range(len(m['rows']) + 2)); rng.shuffle(pr)
    pc = list(range(len(m['cols']) + 2)); rng.shuffle(pc)
    return {'m': m, 'er': extra, 'ec': extrac, 'pr': pr, 'pc': pc, 'N': rng.choice([None, 0, 3, 50]), 'meas': rng.choice(MEAS), 'give': [rng.random() < 0.6, rng.random() < 0.6],
            'positive': rng.random() < 0.6, 'exact': [rng.random() < 0.5, rng.random() < 0.5]}


def marg(m, t, extra, perm, ax, exact=False):
    a = arr(t.matrix)
    labs = t.row_items if ax == 0 else t.col_items
    d = [(l, float(a.sum(axis=1 - ax)[i]) + (extra[i] if i < len(extra) else 0) + 1) for i, l in enumerate(labs)]
    if m['real'] is False: d = [(l, int(x)) for l, x in d]
    if not exact: d += [('zz/1', 4), ('zz/2', 1)]
    out = [d[i] for i in perm if i < len(d)]
    for x in d:
        if x not in out: out.append(x)
    return dict(out)


@kind('P18', 'association', g_assoc)
def _(c):
    t = mk(c['m'])
    if t is None: return
    nf, cf = marg(c['m'], t, c['er'], c['pr'], 0, c['exact'][0]), marg(c['m'], t, c['ec'], c['pc'], 1, c['exact'][1])
    before = snap(t)
    vn, vc = Vocab(nf), Vocab(cf)
    big = max(sum(nf.values()), sum(cf.values()))
    N = None if c['N'] is None or c['N'] == 0 else big + c['N']
    want = {}
    n = N if N else big
    for (r, k), x in stored(t).items():
        o = (float(x), float(cf[k] - x), float(nf[r] - x), float(n - nf[r] - cf[k] + x))
        if o[3] < 0 or o[0] + o[1] <= 0 or o[0] + o[2] <= 0 or o[1] + o[3] <= 0 or o[2] + o[3] <= 0: return
        want[(r, k)] = reference(c['meas'], *o)
    res = mxcalc.compute_association(t, vn, vc, N=N, meas=c['meas'])
    e = shape_ok(res)
    if e: return e
    if res.row_items != t.row_items or res.col_items != t.col_items: return 'labels changed'
    got = cells(res)
    for q, v in got.items():
        w = want.get(q, 0.0)
        if not close(v, w, 1e-5, 2e-6): return 'association %s at %r is %r, expected %r' % (c['meas'], q, v, w)
    if set(stored(res)) - set(want): return 'cells appeared'
    if vn.get_dict() != nf or vc.get_dict() != cf or snap(t) != before: return 'inputs changed'


@kind('P18', 'ppmi', g_assoc)
def _(c):
    t = mk(c['m'])
    if t is None: return
    nf = marg(c['m'], t, c['er'], c['pr'], 0, c['exact'][0]) if c['give'][0] else None
    cf = marg(c['m'], t, c['ec'], c['pc'], 1, c['exact'][1]) if c['give'][1] else None
    a = arr(t.matrix).astype(float)
    n = float(sum(nf.values())) if nf else a.sum()
    row = {l: (nf[l] if nf else a.sum(axis=1)[i]) for i, l in enumerate(t.row_items)}
    col = {l: (cf[l] if cf else a.sum(axis=0)[i]) for i, l in enumerate(t.col_items)}
    before = snap(t)
    kw = {}
    if nf: kw['nfreq'] = Vocab(nf)
    if cf: kw['cfreq'] = Vocab(cf)
    res = mxcalc.compute_ppmi(t, positive=c['positive'], **kw)
    e = shape_ok(res)
    if e: return e
    if res.row_items != t.row_items or res.col_items != t.col_items: return 'labels changed'
    for (r, k), v in cells(res).items():
        x = before[2][(r, k)]
        w = 0.0
        if x > 0 and row[r] * col[k] > 0:
            w = math.log(x * n / (row[r] * col[k]))
            if c['positive']: w = max(w, 0.0)
        if not close(v, w, 1e-5, 2e-6): return 'pmi at %r is %r, expected %r' % ((r, k), v, w)
    if snap(t) != before: return 'input changed'


TYPES = ['apple/NN', 'be/V', 'the/DT', 'Ä/N', 'a/b', 'b/x']


def g_tw(rng, size):
    types = rng.sample(TYPES, rng.randint(1, 4))
    fmt = rng.choice(['lemma/pos', 'lemma/pos', 'lemma'])
    tt = [x if fmt == 'lemma/pos' else x.split('/')[0] for x in types]
    toks = []
    for i in range(rng.randint(1, size + 1)):
        toks.append('%s/%s/%d' % (rng.choice(tt + (['zzz/Q'] if rng.random() < 0.2 else [])), rng.choice(['f1', 'f2']), i))
    cols = words(rng, rng.randint(1, size + 1))
    pos = g_mx(rng, size, fmts=['csr', 'csr', 'csc', 'coo'], rows=toks, cols=cols, zeros=False)
    w = g_mx(rng, size, fmts=['csr', 'csr', 'csc', 'coo'], rows=tt, cols=cols, real=True)
    return {'pos': pos, 'w': w, 'fmt': fmt, 'bool': rng.random() < 0.5, 'dflt': rng.random() < 0.3}


@kind('P19', 'weights', g_tw)
def _(c):
    if c['w']['cols'] != c['pos']['cols']: return
    p, w = mk(c['pos']), mk(c['w'])
    if p is None or w is None or len(set(w.row_items)) < len(w.row_items): return
    bp, bw = snap(p), snap(w)
    fmt, bl = c['fmt'], c['bool']
    if c['dflt'] and fmt == 'lemma/pos': res = mxcalc.compute_token_weights(p, w); bl = True
    else: res = mxcalc.compute_token_weights(p, w, booleanize=bl, tokenFormat=fmt)
    e = shape_ok(res)
    if e: return e
    if res.row_items != bp[0] or res.col_items != bp[1]: return 'labels changed: %r %r' % (res.row_items, res.col_items)
    for (tok, k), v in cells(res).items():
        ty = '/'.join(tok.split('/')[:2]) if fmt == 'lemma/pos' else tok.split('/')[0]
        x = bp[2][(tok, k)]
        y = bw[2].get((ty, k), 0.0)
        want = (y if x != 0 else 0.0) if bl else x * y
        if not close(v, want, 1e-9, 1e-12): return 'weight of %r for token %r is %r, expected %r' % (k, tok, v, want)
    if snap(p) != bp or snap(w) != bw: return 'inputs changed'


def g_tv(rng, size):
    mid = words(rng, rng.randint(1, size + 1))
    m2 = list(mid); rng.shuffle(m2)
    if rng.random() < 0.3: m2 = list(mid)
    l = g_mx(rng, size, fmts=['csr'], cols=mid, real=rng.random() < 0.8)
    r = g_mx(rng, size, fmts=['csr'], rows=m2, real=True)
    if rng.random() < 0.1: r['rows'][rng.randrange(len(m2))] = 'not-there'
    return {'l': l, 'r': r, 'op': rng.choice(['addition', 'addition', 'multiplication', 'weightedmean']), 'norm': rng.choice(['l1', 'l2', 'no', 'no'])}


@kind('P20', 'token vectors', g_tv)
def _(c):
    l, r = mk(c['l']), mk(c['r'])
    if l is None or r is None or len(set(r.row_items)) < len(r.row_items): return
    bl, br = snap(l), snap(r)
    same = set(l.col_items) == set(r.row_items)
    A = arr(l.matrix).astype(float)
    if c['op'] == 'weightedmean' and any(abs(x.sum()) < 1e-9 and np.any(x != 0) for x in A): return         # no mean with weights that sum to 0
    B = arr(r.matrix).astype(float)
    try:
        res = mxcalc.compute_token_vectors(l, r, operation=c['op'], normalization=c['norm'])
    except ValueError as e:
        if not same: return
        raise
    if not same: return 'context words that differ were accepted'
    B = B[[r.row_items.index(x) for x in l.col_items]]
    if c['op'] == 'addition': W = A.dot(B)
    elif c['op'] == 'multiplication':
        W = np.ones((A.shape[0], B.shape[1]))
        for i in range(A.shape[0]):
            for k in range(B.shape[1]):
                for j in range(A.shape[1]):
                    if A[i, j] != 0 and B[j, k] != 0: W[i, k] *= A[i, j] * B[j, k]
    else:
        s = A.sum(axis=1)
        W = np.zeros((A.shape[0], B.shape[1]))
        for i in range(A.shape[0]):
            if s[i] != 0: W[i] = A[i].dot(B) / s[i]
    if c['norm'] != 'no':
        for i in range(W.shape[0]):
            nm = np.abs(W[i]).sum() if c['norm'] == 'l1' else math.sqrt((W[i] ** 2).sum())
            if 0 < nm < 1e-9: return
            if nm: W[i] = W[i] / nm
    e = shape_ok(res)
    if e: return e
    if res.row_items != bl[0] or res.col_items != br[1]: return 'labels %r %r' % (res.row_items, res.col_items)
    G = arr(res.matrix)
    for i in range(W.shape[0]):
        for k in range(W.shape[1]):
            if not close(G[i, k], W[i, k], 1e-6, 1e-9): return '%s/%s: vector of %r at %r is %r, expected %r' % (c['op'], c['norm'], l.row_items[i], r.col_items[k], G[i, k], W[i, k])
    if snap(l) != bl or snap(r) != br: return 'inputs changed'


def g_sq(rng, size):
    n = rng.randint(1, size + 2)
    ws = words(rng, n)
    n = len(ws)
    vs = [0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 1.0, 2.0, 3.5]
    a = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            a[i][j] = a[j][i] = rng.choice(vs) if rng.random() < 0.5 else round(rng.random(), 3)
    d = rng.choice([0.0, 0.0, 1.0, 0.5])
    for i in range(n): a[i][i] = d
    return {'a': a, 'w': ws, 'item': rng.choice(ws), 'k': rng.randint(0, n + 1), 'desc': rng.random() < 0.5, 'rev': rng.choice([None, False, True])}


@kind('P21', 'ranks and neighbours', g_sq)
def _(c):
    a, ws = c['a'], c['w']
    n = len(ws)
    if n == 0 or len(a) != n or any(len(r) != n for r in a) or c['item'] not in ws: return
    A = np.array(a)
    if not np.allclose(A, A.T): return
    t = TypeTokenMatrix(A.copy(), list(ws), list(ws))
    rev = bool(c['rev'])
    R = mxcalc.compute_simrank(t) if c['rev'] is None else mxcalc.compute_simrank(t, reverse=rev)
    if R.row_items != ws or R.col_items != ws: return 'rank labels'
    for i in range(n):
        row = [int(x) for x in R.matrix[i]]
        if sorted(row) != list(range(1, n + 1)): return 'ranks of row %d are %r' % (i, row)
        for p in range(n):
            for q in range(n):
                if (A[i, p] < A[i, q] if rev else A[i, p] > A[i, q]) and not row[p] < row[q]: return 'row %d: %r has rank %d, %r rank %d' % (i, A[i, p], row[p], A[i, q], row[q])
    if not (t.matrix == A).all(): return 'input changed'
    i = ws.index(c['item'])
    sim = t.most_similar(c['item'], k=c['k'], descending=c['desc'])
    k = min(c['k'], n - 1)
    if c['item'] in sim: return 'the item itself is reported'
    if len(sim) != k or len(set(sim)) != k: return '%d items instead of %d' % (len(sim), k)
    if any(x not in ws for x in sim): return 'invented item'
    for x in sim:
        for y in ws:
            if y != c['item'] and y not in sim:
                p, q = A[i, ws.index(x)], A[i, ws.index(y)]
                if (q > p if c['desc'] else q < p): return '%r (%r) is reported but %r (%r) is not' % (x, p, y, q)
    for f, better in ((mxutils.get_largest_k, lambda p, q: p > q), (mxutils.get_smallest_k, lambda p, q: p < q)):
        idx = [int(x) for x in f(A[i].copy(), c['k'])]
        if len(idx) != min(c['k'], n) or len(set(idx)) != len(idx): return '%s returned %r' % (f.__name__, idx)
        for y in range(n):
            if y not in idx and any(better(A[i, y], A[i, x]) for x in idx): return '%s left out a better element: %r of %r' % (f.__name__, idx, list(A[i]))


METRICS = ['cosine', 'euclidean', 'cityblock', 'manhattan', 'l1', 'l2']


def g_dist(rng, size):
    m = g_mx(rng, size, fmts=['csr', 'csr', 'csc', 'coo', 'dense'], real=True)
    return {'m': m, 'axis': rng.choice([0, 0, 1]), 'metric': rng.choice(METRICS + ['cosine', None]), 'cos': rng.random() < 0.4}


@kind('P29', 'distance', g_dist)
def _(c):
    t = mk(c['m'])
    if t is None: return
    b = snap(t)
    A = arr(t.matrix).astype(float)
    if c['axis'] == 1: A = A.T
    labs = t.row_items if c['axis'] == 0 else t.col_items
    kw = {}
    if c['axis'] or c['m']['warm']: kw['axis'] = c['axis']
    if c['cos']: res = mxcalc.compute_cosine(t, **kw)
    else:
        if c['metric']: kw['metric'] = c['metric']
        res = mxcalc.compute_distance(t, **kw)
    e = shape_ok(res)
    if e: return e
    if res.row_items != labs or res.col_items != labs: return 'labels %r %r, expected %r' % (res.row_items, res.col_items, labs)
    n = len(labs)
    for i in range(n):
        for j in range(n):
            x, y = A[i], A[j]
            nx, ny = math.sqrt((x ** 2).sum()), math.sqrt((y ** 2).sum())
            cs = 0.0 if nx == 0 or ny == 0 else float(x.dot(y)) / (nx * ny)
            if c['cos']: w = 1.0 if i == j else cs
            else:
                mt = c['metric'] or 'cosine'
                w = (0.0 if i == j else 1 - cs) if mt == 'cosine' else math.sqrt(((x - y) ** 2).sum()) if mt in ('euclidean', 'l2') else float(np.abs(x - y).sum())
            if not close(res.matrix[i, j], w, 1e-6, 1e-6): return '%s of %r and %r is %r, expected %r' % ('cosine' if c['cos'] else kw.get('metric', 'cosine'), labs[i], labs[j], res.matrix[i, j], w)
    if snap(t) != b: return 'input changed'
    for bad in (2, -1):
        try:
            (mxcalc.compute_cosine if c['cos'] else mxcalc.compute_distance)(t, axis=bad)
            return 'axis %d accepted' % bad
        except ValueError: pass
