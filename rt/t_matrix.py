"""P11-P16: matrices"""
import operator
import os
import shutil
import tempfile
import numpy as np
import scipy.sparse as sp
from rt.core import kind
from rt.gen import *
from nephosem import TypeTokenMatrix
from nephosem.specutils import mxutils

SP = ['csr', 'csc', 'coo']
VALS = [1, 1, 2, 3, 5, -1, -2, 10, 0]
RVALS = [0.5, 1.0, 2.25, -1.5, 3.0, 1e-6, 0.0, -0.125, 7.0]


def g_mx(rng, size, fmts=None, real=None, rows=None, cols=None, zeros=True):
    rows = words(rng, rng.randint(1, size + 1)) if rows is None else rows
    cols = words(rng, rng.randint(1, size + 1)) if cols is None else cols
    fmt = rng.choice(fmts or ['csr', 'csr', 'csr', 'csc', 'coo', 'dense'])
    real = rng.random() < 0.4 if real is None else real
    dens = rng.choice([0.15, 0.4, 0.8])
    cells = []
    order = [(i, j) for i in range(len(rows)) for j in range(len(cols))]
    rng.shuffle(order)              # unsorted indices inside the rows of a csr matrix
    for i, j in order:
        if rng.random() < dens:
            v = rng.choice(RVALS if real else VALS)
            if v == 0 and not zeros: v = 1
            cells.append([i, j, v])
    return {'rows': rows, 'cols': cols, 'fmt': fmt, 'real': real, 'cells': cells, 'raw': rng.random() < 0.3, 'warm': rng.random() < 0.4}


def mk(m):
    n, k = len(m['rows']), len(m['cols'])
    if not n or not k: return None
    dt = float if m['real'] else int
    cells = [c for c in m['cells'] if c[0] < n and c[1] < k]
    if m['fmt'] == 'dense':
        a = np.zeros((n, k), dtype=dt)
        for i, j, v in cells: a[i, j] = v
        if n == k and np.allclose(a, a.T) and m['rows'] != m['cols']:
            a = a.astype(float); a[0, n - 1] = a[n - 1, 0] + 1.5
            if n == 1: return None
        x = a
    else:
        rc = np.array([c[:2] for c in cells], dtype=int).reshape(-1, 2)
        x = sp.coo_matrix((np.array([c[2] for c in cells], dtype=dt), (rc[:, 0], rc[:, 1])), shape=(n, k))
        if m['fmt'] != 'coo': x = x.asformat(m['fmt'])
        if m['raw'] and m['fmt'] == 'csr':          # csr with unsorted column indices inside the rows
            per = [[] for _ in range(n)]
            for i, j, v in cells: per[i].append((j, v))
            x = sp.csr_matrix((np.array([v for p in per for _, v in p], dtype=dt), np.array([j for p in per for j, _ in p], dtype=int),
                               np.cumsum([0] + [len(p) for p in per])), shape=(n, k))
    t = TypeTokenMatrix(x, list(m['rows']), list(m['cols']))
    if m['warm']: t.item2rowid, t.item2colid
    return t


def arr(x): return x.toarray() if sp.issparse(x) else np.asarray(x)


def cells(t):
    a = arr(t.matrix)
    return {(r, c): a[i, j] for i, r in enumerate(t.row_items) for j, c in enumerate(t.col_items)}


def stored(t):
    c = t.matrix.tocoo()
    return {(t.row_items[i], t.col_items[j]): v for i, j, v in zip(c.row, c.col, c.data)}


def shape_ok(t):
    if t.matrix.shape != (len(t.row_items), len(t.col_items)): return 'shape %r with %d/%d labels' % (t.matrix.shape, len(t.row_items), len(t.col_items))
    if len(set(t.row_items)) != len(t.row_items) or len(set(t.col_items)) != len(t.col_items): return 'duplicated labels'
    if t.item2rowid != {r: i for i, r in enumerate(t.row_items)}: return 'row index %r does not fit the labels %r' % (t.item2rowid, t.row_items)
    if t.item2colid != {r: i for i, r in enumerate(t.col_items)}: return 'column index %r does not fit the labels %r' % (t.item2colid, t.col_items)
    return None


def snap(t): return (list(t.row_items), list(t.col_items), cells(t), stored(t) if sp.issparse(t.matrix) else None)


def keeps(t, src, what):
    e = shape_ok(t)
    if e: return '%s: %s' % (what, e)
    w = src[2]
    for k, v in cells(t).items():
        if k not in w: return '%s: label pair %r was invented' % (what, k)
        if v != w[k]: return '%s: cell %r is %r, source has %r' % (what, k, v, w[k])
    return None


def g_ops(rng, size):
    m = g_mx(rng, size)
    ops = []
    for _ in range(rng.randint(1, 3)):
        o = rng.choice(['sub', 'sub', 'sub', 'reorder', 'T', 'sample', 'conc', 'todense', 'get', 'copy'])
        ops.append([o, rng.randint(0, 10**6)])
    return {'m': m, 'ops': ops}


@kind('P11', 'operations', g_ops)
def _(c):
    import random
    t = mk(c['m'])
    if t is None: return
    for o, sd in c['ops']:
        rng = random.Random(sd)
        src = snap(t)
        rows, cols = list(t.row_items), list(t.col_items)
        dense = not sp.issparse(t.matrix)
        n = None
        try:
            if o == 'sub':
                w = rng.choice(['r', 'c', 'rc'])
                kw = {}
                extra = ['missing', 'zz/none']
                if 'r' in w: kw['row'] = rng.sample(rows + extra[:rng.randint(0, 2)], rng.randint(1, len(rows)))
                if 'c' in w: kw['col'] = rng.sample(cols + extra[:rng.randint(0, 2)], rng.randint(1, len(cols)))
                if t.matrix.shape and not dense and t.matrix.format == 'coo': continue
                if dense and type(t._mxbehavior).__name__ == 'SquareMatrix' and w != 'rc': continue
                n = t.submatrix(**{k: list(v) for k, v in kw.items()})
                wr = [x for x in kw.get('row', rows) if x in rows]
                wc = [x for x in kw.get('col', cols) if x in cols]
                if not wr or not wc:
                    if n is not None: return 'submatrix of unknown labels: %r' % n
                    continue
                if n.row_items != wr or n.col_items != wc: return 'submatrix(%r) has labels %r %r' % (kw, n.row_items, n.col_items)
            elif o == 'reorder':
                ax = rng.randint(0, 1)
                l = list(rows if ax == 0 else cols); rng.shuffle(l)
                if rng.random() < 0.4: l = l[:rng.randint(1, len(l))]
                if not dense and t.matrix.format == 'coo': continue
                if dense and type(t._mxbehavior).__name__ == 'SquareMatrix': continue
                n = t.reorder(list(l), axis=ax)
                if (n.row_items, n.col_items) != ((l, cols) if ax == 0 else (rows, l)): return 'reorder labels %r %r for %r' % (n.row_items, n.col_items, l)
            elif o == 'T':
                if dense and type(t._mxbehavior).__name__ == 'SquareMatrix': continue
                n = t.transpose()
                e = shape_ok(n)
                if e: return 'transpose: ' + e
                if n.row_items != cols or n.col_items != rows: return 'transpose labels'
                if {(b, a): v for (a, b), v in cells(n).items()} != src[2]: return 'transpose: cells changed'
                if snap(t) != src: return 'transpose changed the source'
                t = n
                continue
            elif o == 'sample':
                if not dense and t.matrix.format == 'coo': continue
                if dense and type(t._mxbehavior).__name__ == 'SquareMatrix': continue
                p = rng.choice([0.3, 0.5, 0.9, 1, len(rows)])
                n = t.sample(p, seed=rng.choice([-1, 3]))
                want = (int(len(rows) * p) or 1) if p < 1 else p
                if len(n.row_items) != want: return 'sample(%r) of %d rows has %d' % (p, len(rows), len(n.row_items))
                if n.row_items != [r for r in rows if r in n.row_items]: return 'sample: order %r' % n.row_items
                if n.col_items != cols: return 'sample: columns'
            elif o == 'conc':
                ax = rng.randint(0, 1)
                oth = ['n%d.%d' % (sd, i) for i in range(rng.randint(1, 3))]
                if dense and type(t._mxbehavior).__name__ == 'SquareMatrix': continue
                m2 = g_mx(rng, 3, fmts=['dense'] if dense else ['csr', 'csc'], rows=oth if ax == 0 else rows, cols=cols if ax == 0 else oth)
                x = mk(m2)
                if x is None: continue
                sx = snap(x)
                n = t.concatenate(x, axis=ax)
                if (n.row_items, n.col_items) != ((rows + oth, cols) if ax == 0 else (rows, cols + oth)): return 'concatenate: labels %r %r' % (n.row_items, n.col_items)
                if snap(x) != sx: return 'concatenate changed the other matrix'
                src[2].update(sx[2]); both = dict(src[2])
                e = shape_ok(n)
                if e: return 'concatenate: ' + e
                if cells(n) != both: return 'concatenate: cells %r, expected %r' % (cells(n), both)
                t = n
                continue
            elif o == 'todense':
                if dense: continue
                n = t.todense()
            elif o == 'copy':
                n = rng.choice([t.copy, t.deepcopy])()
                if sp.issparse(n.matrix): n.matrix = n.matrix * 3
                n.row_items.append('extra')
                if snap(t) != src: return 'a copy shares state with its source'
                continue
            elif o == 'get':
                e = get(t, rng, src)
                if e: return e
                continue
        except ValueError as e:
            if 'row items and column items are not equal' in str(e): return      # a dense result that happens to be symmetric
            raise
        e = keeps(n, src, o)
        if e: return e
        if snap(t) != src: return '%s changed the source matrix' % o
        n.row_items.append('zzz'); n.row_items.pop()
        t = n


def get(t, rng, src):
    if sp.issparse(t.matrix) and t.matrix.format == 'coo': return None
    rows, cols, w = src[0], src[1], src[2]
    r, c = rng.choice(rows), rng.choice(cols)
    i, j = rows.index(r), cols.index(c)
    vec = lambda x: np.asarray(x).ravel().tolist()
    for key in ((r, c), (i, j), (r, j), (i, c), (i - len(rows), c)):
        if t[key] != w[(r, c)]: return 'cell %r is %r, expected %r' % (key, t[key], w[(r, c)])
    for key in (r, i):
        if vec(t[key]) != [w[(r, x)] for x in cols]: return 'row %r is %r' % (key, t[key])
    k = rng.randint(1, len(rows))
    if vec(t[:k]) != [w[(x, y)] for x in rows[:k] for y in cols]: return 'slice [:%d]' % k
    if vec(t[:, c]) != [w[(x, c)] for x in rows]: return 'column %r: %r' % (c, t[:, c])
    if vec(t[r, :k]) != [w[(r, x)] for x in cols[:k]]: return 'row %r columns [:%d]' % (r, k)
    try:
        t['not there', c]
        return 'unknown label accepted'
    except KeyError: pass
    if sp.issparse(t.matrix) and sorted(t.get_colloc_contexts(r)) != sorted(y for (x, y) in stored(t) if x == r): return 'get_colloc_contexts(%r)' % r
    return None


def g_eq(rng, size):
    m = g_mx(rng, size, zeros=False)
    return {'m': m, 'i': rng.randint(0, 50)}


@kind('P11', 'equal', g_eq, weight=0.4)
def _(c):
    t, u = mk(c['m']), mk(c['m'])
    if t is None or (sp.issparse(t.matrix) and t.matrix.format == 'coo'): return
    if not t.equal(u): return 'equal matrices reported different'
    a = u.matrix
    if sp.issparse(a) and a.nnz:
        a.data = a.data.astype(float); a.data[c['i'] % a.nnz] += 1.25
        if t.equal(u): return 'different cells reported equal'
    u = mk(c['m']); u.row_items = list(u.row_items); u.row_items[0] = 'other label'
    if t.equal(u): return 'different labels reported equal'


# ------------------------------------------------------------------------------------------- merging
def g_merge(rng, size):
    n = rng.randint(2, 4)
    pool = words(rng, size + 3)
    cp = words(rng, size + 3)
    real = rng.random() < 0.4
    mode = rng.choice(['free', 'free', 'rows', 'same', 'perm'])
    r0 = rng.sample(pool, rng.randint(1, len(pool))); c0 = rng.sample(cp, rng.randint(1, len(cp)))
    out = []
    for _ in range(n):
        rows = r0 if mode in ('rows', 'same') else rng.sample(r0, len(r0)) if mode == 'perm' else rng.sample(pool, rng.randint(1, len(pool)))
        cols = c0 if mode == 'same' else rng.sample(c0, len(c0)) if mode == 'perm' else rng.sample(cp, rng.randint(1, len(cp)))
        m = g_mx(rng, size, fmts=['csr', 'csr', 'csc'] if mode != 'rows' else ['csr'], real=real, rows=list(rows), cols=list(cols))
        if not m['cells']: m['cells'] = [[0, 0, 3]]
        out.append(m)
    return {'ms': out, 'mode': mode, 'again': [rng.randrange(4) for _ in range(rng.choice([0, 0, 1, 2]))]}


def added(snaps):
    w = {}
    for s in snaps:
        for k, v in s[3].items(): w[k] = w.get(k, 0) + v
    return w


def merged(spmx, rows, cols, snaps, what):
    ur, uc = set(x for s in snaps for x in s[0]), set(x for s in snaps for x in s[1])
    if sorted(rows) != sorted(ur) or sorted(cols) != sorted(uc): return '%s: labels %r %r' % (what, rows, cols)
    a = arr(spmx)
    if a.shape != (len(rows), len(cols)): return '%s: shape %r' % (what, a.shape)
    w = added(snaps)
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            if abs(a[i, j] - w.get((r, c), 0)) > 1e-9 * (1 + abs(w.get((r, c), 0))): return '%s: cell %r is %r, sum of the inputs is %r' % (what, (r, c), a[i, j], w.get((r, c), 0))
    return None


@kind('P12', 'merge', g_merge)
def _(c):
    ts = [mk(m) for m in c['ms']]
    for j in c.get('again', []): ts.append(ts[j % len(ts)])
    if len(ts) < 2 or any(t is None for t in ts): return
    sn = [snap(t) for t in ts]
    def same():
        return [snap(t) for t in ts] == sn
    e = merged(*mxutils.merge_matrices(ts), sn, 'merge_matrices')
    if e: return e
    if not same(): return 'merge_matrices changed its inputs'
    r = ts[0].merge(ts[1])
    e = merged(r.matrix, r.row_items, r.col_items, sn[:2], 'merge')
    if e: return e
    if not same(): return 'merge changed its inputs'
    x = mxutils.merge_matrices(ts[:1])
    e = merged(*x, sn[:1], 'merge_matrices of one')
    if e: return e
    if c['mode'] in ('rows', 'same') and ts[0].matrix.format == ts[1].matrix.format == 'csr':
        r = mxutils.merge_two_matrices(ts[0], ts[1])
        e = merged(r.matrix, r.row_items, r.col_items, sn[:2], 'merge_two_matrices')
        if e: return e
        if not same(): return 'merge_two_matrices changed its inputs'


@kind('P12', 'merge of dictionaries', lambda rng, size: {'ds': [[[r, fdict(rng, size)] for r in words(rng, rng.randint(0, size + 1), WORDS[:6])] for _ in range(rng.randint(0, 4))],
                                         'again': [rng.randrange(8) for _ in range(rng.choice([0, 0, 1, 2]))]})
def _(c):
    ds = [{r: dict(map(tuple, v)) for r, v in d} for d in c['ds']]
    arg = [{k: dict(v) for k, v in d.items()} for d in ds]
    for j in c['again']:                                # the very same dictionary object listed more than once
        if ds: arg.append(arg[j % len(ds)]); ds.append(ds[j % len(ds)])
    r = mxutils.merge_matrix_dict(arg)
    if arg != ds: return 'the inputs changed'
    w = {}
    for d in ds:
        for k, v in d.items():
            for q, x in v.items(): w[(k, q)] = w.get((k, q), 0) + x
    g = {(k, q): x for k, v in r.items() for q, x in v.items()}
    if set(g) != set(w): return 'entries %r, expected %r' % (sorted(g), sorted(w))
    for k in w:
        if abs(g[k] - w[k]) > 1e-9 * (1 + abs(w[k])): return 'entry %r is %r, expected %r' % (k, g[k], w[k])
    if set(r) != set(k for d in ds for k in d): return 'row keys %r' % sorted(r)


# ------------------------------------------------------------------------------------------- dictionaries
def g_dict(rng, size):
    rows, cols = words(rng, rng.randint(1, size + 2)), words(rng, rng.randint(1, size + 2))
    real = rng.random() < 0.4
    d = []
    for r in rows:
        if rng.random() < 0.8:
            v = [[c, rng.choice(RVALS if real else VALS)] for c in rng.sample(cols, rng.randint(0, len(cols)))]
            d.append([r, v])
    rng.shuffle(d)
    return {'rows': rows, 'cols': cols, 'd': d, 'real': real}


@kind('P13', 'dictionary and matrix', g_dict)
def _(c):
    d = {r: dict(map(tuple, v)) for r, v in c['d']}
    flat = {(r, q): x for r, v in d.items() for q, x in v.items()}
    rows, cols = c['rows'], c['cols']
    if not flat or any(r not in rows or q not in cols for r, q in flat): return
    m = mxutils.transform_dict_to_spmatrix({r: dict(v) for r, v in d.items()}, list(rows), list(cols))
    if m.shape != (len(rows), len(cols)): return 'shape %r' % (m.shape,)
    co = m.tocoo()
    got = {(rows[i], cols[j]): v for i, j, v in zip(co.row, co.col, co.data)}
    if got != flat or len(co.data) != len(flat): return 'entries %r, expected %r' % (got, flat)
    if all(isinstance(x, int) for x in flat.values()) != np.issubdtype(m.dtype, np.integer): return 'element type %s' % m.dtype
    for f in SP:
        b = mxutils.transform_spmatrix_to_dict(m.asformat(f), list(rows), list(cols))
        if {(r, q): x for r, v in b.items() for q, x in v.items()} != flat: return 'back from %s: %r, expected %r' % (f, b, flat)
    for l, ax in ((rows, 0), (cols, 1)):
        used = [k[ax] for k in flat]
        short = [x for x in l if x != used[0]]
        try:
            m = mxutils.transform_dict_to_spmatrix({r: dict(v) for r, v in d.items()}, short if ax == 0 else list(rows), short if ax == 1 else list(cols))
        except (KeyError, ValueError): continue
        rr, cc = (short, cols) if ax == 0 else (rows, short)
        co = m.tocoo()
        for i, j, v in zip(co.row, co.col, co.data):
            if flat.get((rr[i], cc[j])) != v: return 'cell %r invented for labels not requested' % ((rr[i], cc[j]),)


# ------------------------------------------------------------------------------------------- thresholds, masks, dropping
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def g_thr(rng, size):
    m = g_mx(rng, size, fmts=['csr', 'csr', 'csc', 'coo', 'dense'])
    vs = [v for _, _, v in m['cells']] + [0, 1, -1, 0.5, 2]
    return {'m': m, 'op': rng.choice(sorted(OPS)), 'x': rng.choice(vs), 'n': rng.randint(0, 3), 'ax': rng.randint(0, 1)}


@kind('P14', 'thresholds and dropping', g_thr)
def _(c):
    t = mk(c['m'])
    if t is None: return
    src = snap(t)
    op, x, ax = OPS[c['op']], c['x'], c['ax']
    spr = sp.issparse(t.matrix)
    try:
        if type(t._mxbehavior).__name__ != 'SquareMatrix':
            r = op(t, x)
            e = shape_ok(r)
            if e: return 'comparison: ' + e
            if r.row_items != src[0] or r.col_items != src[1]: return 'comparison: labels'
            marked = {k for k, v in cells(r).items() if v}
            base = src[3] if spr else src[2]
            want = {k for k, v in base.items() if op(v, x)}
            if marked != want: return 'matrix %s %r marks %r, expected %r' % (c['op'], x, sorted(marked), sorted(want))
            if spr and any(v is not True and v != True for v in stored(r).values()): return 'stored mask values'
            k = t.multiply(r)
            e = shape_ok(k)
            if e: return 'mask: ' + e
            got = cells(k)
            exp = {q: (src[2][q] if q in want else 0) for q in got}
            if got != exp: return 'multiplying by the mask gives %r, expected %r' % (got, exp)
            if spr and not set(q for q, v in stored(k).items() if v) <= want: return 'mask keeps unmarked cells'
    except ValueError as e:
        if 'row items and column items are not equal' not in str(e): raise
    if snap(t) != src: return 'the source was changed'
    if not spr: return
    w = src[2]
    rows, cols = src[0], src[1]
    zero_r = [r for r in rows if all(w[(r, q)] == 0 for q in cols)]
    zero_c = [q for q in cols if all(w[(r, q)] == 0 for r in rows)]
    if t.empty_rows() != zero_r: return 'empty rows %r, expected %r' % (t.empty_rows(), zero_r)
    nr = [r for r in rows if sum(w[(r, q)] != 0 for q in cols) > c['n']]
    nc = [q for q in cols if sum(w[(r, q)] != 0 for r in rows) > c['n']]
    if t.matrix.format != 'coo':
        for what, f, wr, wc in (('drop rows with <= %d values' % c['n'], lambda: t.drop(axis=0, n_nonzero=c['n']), nr, cols),
                                ('drop columns with <= %d values' % c['n'], lambda: t.drop(axis=1, n_nonzero=c['n']), rows, nc),
                                ('drop empty rows', lambda: t.drop_empty(axis=0), [r for r in rows if r not in zero_r], cols),
                                ('drop empty columns', lambda: t.drop_empty(axis=1), rows, [r for r in cols if r not in zero_c]),
                                ('drop empty rows (2)', lambda: t.drop_empty_rows(), [r for r in rows if r not in zero_r], cols)):
            if (not wr or not wc) and what == 'drop empty columns': continue
            n = f()
            if not wr or not wc:
                if n is not None and cells(n): return '%s: %r' % (what, n)
                continue
            if n.row_items != wr or n.col_items != wc: return '%s leaves %r %r, expected %r %r' % (what, n.row_items, n.col_items, wr, wc)
            e = keeps(n, src, what)
            if e: return e
    st = set(src[3])
    a = arr(t.matrix)
    keep = [i for i, r in enumerate(rows) if any((r, q) in st for q in cols)]
    if not np.array_equal(arr(t._mxbehavior.drop_zero_rows()), a[keep]): return 'drop_zero_rows'
    keep = [i for i, q in enumerate(cols) if any((r, q) in st for r in rows)]
    if not np.array_equal(arr(t._mxbehavior.drop_zero_cols()), a[:, keep]): return 'drop_zero_cols'
    if snap(t) != src: return 'the source was changed'


# ------------------------------------------------------------------------------------------- sums
@kind('P15', 'sums and counts', lambda rng, size: {'m': g_mx(rng, size)})
def _(c):
    base = None
    for f in ['csr', 'csc', 'coo', 'dense']:
        m = dict(c['m'], fmt=f)
        t = mk(m)
        if t is None: continue
        if f == 'dense':
            w = cells(t)
        else: w = cells(t)
        rows, cols = t.row_items, t.col_items
        near = lambda a, b: abs(a - b) <= 1e-9 * (1 + abs(b))
        r = t.sum(axis=1)
        if list(r) != rows: return '%s: row sums keyed by %r' % (f, list(r))
        for x in rows:
            if not near(r[x], sum(w[(x, y)] for y in cols)): return '%s: row sum of %r is %r' % (f, x, r[x])
        r = t.sum(axis=0)
        if list(r) != cols: return '%s: column sums keyed by %r' % (f, list(r))
        for y in cols:
            if not near(r[y], sum(w[(x, y)] for x in rows)): return '%s: column sum of %r is %r' % (f, y, r[y])
        if not near(t.sum(), sum(w.values())): return '%s: total %r' % (f, t.sum())
        n = t.count_nonzero(axis=0).tolist()
        if n != [sum(w[(x, y)] != 0 for y in cols) for x in rows]: return '%s: non-zeros per row %r' % (f, n)
        n = t.count_nonzero(axis=1).tolist()
        if n != [sum(w[(x, y)] != 0 for x in rows) for y in cols]: return '%s: non-zeros per column %r' % (f, n)
        if cells(t) != w: return 'the source was changed'


# ------------------------------------------------------------------------------------------- files
@kind('P16', 'save and load', lambda rng, size: {'m': g_mx(rng, size), 'pack': rng.random() < 0.6, 'ext': rng.choice(['.pac', '', '.wcmx.freq', '.wcmx.freq.pac']), 'enc': rng.choice(['utf-8', 'utf-8', 'utf-16'])})
def _(c):
    t = mk(c['m'])
    if t is None: return
    d = tempfile.mkdtemp()
    try:
        src = snap(t)
        fn = os.path.join(d, 'm' + c['ext'])
        if not c['pack'] and c['ext'].endswith('.pac'): fn = os.path.join(d, 'm.freq')
        t.save(fn, encoding=c['enc'], pack=c['pack'], verbose=False)
        if snap(t) != src: return 'saving changed the matrix'
        u = TypeTokenMatrix.load(fn, encoding=c['enc'], pack=c['pack'])
        if u.row_items != src[0] or u.col_items != src[1]: return 'labels %r %r, saved %r %r' % (u.row_items, u.col_items, src[0], src[1])
        e = shape_ok(u)
        if e: return 'loaded: ' + e
        if cells(u) != src[2]: return 'cells %r, saved %r' % (cells(u), src[2])
        if sp.issparse(t.matrix) != sp.issparse(u.matrix): return 'storage kind changed'
        if u.matrix.dtype.kind != t.matrix.dtype.kind: return 'element type changed'
        if sp.issparse(t.matrix) and stored(u) != src[3]: return 'stored entries %r, saved %r' % (stored(u), src[3])
        u.save(fn, encoding=c['enc'], pack=c['pack'], verbose=False)
        if cells(TypeTokenMatrix.load(fn, encoding=c['enc'], pack=c['pack'])) != src[2]: return 'saved again: cells changed'
    finally:
        shutil.rmtree(d, ignore_errors=True)


@kind('P16', 'csv and data frames', lambda rng, size: {'m': g_mx(rng, size), 'sep': rng.choice(['\t', ',', ';'])})
def _(c):
    m = dict(c['m'])
    m['rows'] = [w + '/x' for w in m['rows']]; m['cols'] = [w + '/y' for w in m['cols']]
    t = mk(m)
    if t is None: return
    src = snap(t)
    df = t.dataframe
    if df.index.tolist() != src[0] or df.columns.tolist() != src[1]: return 'data frame labels'
    if {(r, q): df.values[i, j] for i, r in enumerate(src[0]) for j, q in enumerate(src[1])} != src[2]: return 'data frame cells'
    u = TypeTokenMatrix.from_dataframe(df, issparse=True)
    if snap(u)[:3] != src[:3]: return 'from_dataframe: %r, expected %r' % (snap(u)[:3], src[:3])
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'm.csv')
        t.to_csv(fn, sep=c['sep'], verbose=False)
        for sparse in ((True,) if sp.issparse(t.matrix) else (True, False)):
            u = TypeTokenMatrix.read_csv(fn, sep=c['sep'], index_col=0, issparse=sparse)
            if u.row_items != src[0] or u.col_items != src[1]: return 'csv labels %r %r' % (u.row_items, u.col_items)
            got = cells(u)
            if any(abs(got[k] - v) > 1e-12 * (1 + abs(v)) for k, v in src[2].items()): return 'csv cells %r, expected %r' % (got, src[2])
        if snap(t) != src: return 'the source was changed'
    finally:
        shutil.rmtree(d, ignore_errors=True)
