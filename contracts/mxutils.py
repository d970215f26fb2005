"""Contracts of nephosem.specutils.mxutils and the matrix classes (P11-P16)."""
import z3
from pydv.task import *

MXU = 'nephosem.specutils.mxutils'
MX = 'nephosem.core.matrix'
TTM = MX + ':TypeTokenMatrix'
DD = TDict(STR, TDict(STR, REAL))
DDI = TDict(STR, TDict(STR, INT))


def rng(i, n): return z3.And(0 <= i, i < n)


def distinct(T, l):
    i, j = z3.Ints('di dj')
    T.pre(z3.ForAll([i, j], z3.Implies(z3.And(rng(i, l.n), rng(j, l.n), eqv(l.get(i), l.get(j))), i == j)))


def labels(T, name, uniq=True):
    r = T.new(TList(STR), name); l = T.snap(r)
    if uniq: distinct(T, l)
    return r, l


def forall2(m, n, f):
    i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    return z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m), rng(j, n)), f(i, j)))


@contract('P13', MXU + ':transform_dict_to_spmatrix', params=('real', 'int'))
def _(T, kind):
    dr = T.new(DD if kind == 'real' else DDI, 'd'); d = T.snap(dr)
    rr, rows = labels(T, 'rows')
    cr, cols = labels(T, 'cols')
    entry = lambda r, c: z3.And(d.dom(r), d.val(r).dom(c))
    any_ = exists([STR, STR], entry)
    alien = exists([STR, STR], lambda r, c: z3.And(entry(r, c), z3.Not(z3.And(mem(rows, r), mem(cols, c)))))
    for s, r in T.normal(T.call(MXU + ':transform_dict_to_spmatrix', [dr, rr, cr]),
                         raises={'ValueError': z3.Not(any_), 'KeyError': alien}):
        a = T.snap(r, s)
        T.post(s, 'one row and one column per label', z3.And(a.shape[0] == rows.n, a.shape[1] == cols.n))
        T.post(s, 'exactly the entries of the dictionary are stored', forall2(rows.n, cols.n, lambda i, j: a.stored(i, j) == entry(rows.get(i), cols.get(j))))
        T.post(s, 'every entry sits under its labels', forall2(rows.n, cols.n, lambda i, j: z3.Implies(entry(rows.get(i), cols.get(j)), a.get(i, j) == d.val(rows.get(i)).val(cols.get(j)).t)))
        T.post(s, 'no entry of the dictionary is dropped', z3.Not(alien))
        T.post(s, 'nothing anywhere else', forall2(rows.n, cols.n, lambda i, j: z3.Implies(z3.Not(entry(rows.get(i), cols.get(j))), a.get(i, j) == 0)))
        T.post(s, 'values keep their kind', z3.BoolVal(a.dt == (REAL if kind == 'real' else INT)))
        T.unchanged(s, 'inputs unchanged', dr, rr, cr)


@contract('P13', MXU + ':transform_spmatrix_to_dict', params=('csr', 'csc', 'coo'))
def _(T, fmt):
    mr = T.new(TArr('sp2', fmt, REAL), 'm'); a = T.snap(mr)
    rr, rows = labels(T, 'rows')
    cr, cols = labels(T, 'cols')
    T.pre(z3.And(a.shape[0] == rows.n, a.shape[1] == cols.n))
    for s, r in T.normal(T.call(MXU + ':transform_spmatrix_to_dict', [mr, rr, cr])):
        d = T.snap(r, s)
        if isinstance(d, CDictV) and not d.d: d = empty_dict(STR, TDict(STR, REAL))
        T.post(s, 'every stored cell is an entry under its labels', forall2(rows.n, cols.n, lambda i, j: z3.Implies(a.stored(i, j),
               z3.And(d.dom(rows.get(i)), d.val(rows.get(i)).dom(cols.get(j)), d.val(rows.get(i)).val(cols.get(j)).t == a.get(i, j)))))
        i, j = z3.Ints('wi wj')
        T.post(s, 'every entry is a stored cell', forall([STR, STR], lambda p, q: z3.Implies(z3.And(d.dom(p), d.val(p).dom(q)),
               z3.Exists([i, j], z3.And(rng(i, rows.n), rng(j, cols.n), rows.get(i).t == p.t, cols.get(j).t == q.t, a.stored(i, j))))))
        T.unchanged(s, 'inputs unchanged', mr, rr, cr)


# ------------------------------------------------------------------------------------------- TypeTokenMatrix objects
BEH = {'sp': MX + ':SparseMatrix', 'nd': MX + ':NormalMatrix', 'sq': MX + ':SquareMatrix'}


class Mx(object):
    """a matrix object of the pre-state: ref, array content, labels"""


def index_map(T, name, l):
    """a cached label -> index dictionary that agrees with the labels"""
    r = T.new(TDict(STR, INT), name); d = T.snap(r)
    i = z3.Int('mi')
    T.assume(z3.ForAll([i], z3.Implies(rng(i, l.n), z3.And(d.dom(l.get(i)), d.val(l.get(i)).t == i)), patterns=[l.get(i).t]))
    T.assume(forall([STR], lambda k: z3.Implies(d.dom(k), z3.And(rng(d.val(k).t, l.n), l.get(d.val(k).t).t == k.t))))
    return r


def matrix(T, form, name='m', cached=False, dt=REAL, rows=None, cols=None):
    m = Mx()
    m.form = form
    m.dense = form in ('nd', 'sq')
    if rows is None: rr, m.rows = labels(T, name + '.rows')
    else: rr, m.rows = rows
    if form == 'sq': m.cols = m.rows; cr = T.eng.box(T.st, m.rows)
    elif cols is not None: cr, m.cols = cols
    else: cr, m.cols = labels(T, name + '.cols')
    ar = T.new(TArr('nd2', None, dt) if m.dense else TArr('sp2', form, dt), name + '.a')
    m.a = T.snap(ar)
    T.pre(z3.And(m.a.shape[0] == m.rows.n, m.a.shape[1] == m.cols.n))
    if form == 'sq':
        i, j = z3.Ints('si sj')
        T.pre(z3.ForAll([i, j], m.a.get(i, j) == m.a.get(j, i)))
    beh = T.obj(BEH[form if m.dense else 'sp'], matrix=ar)
    m.arr = ar
    m.ref = T.obj(TTM, matrix=ar, _mxbehavior=beh, row_items=rr, col_items=cr,
                  _item2rowid=index_map(T, name + '.rmap', m.rows) if cached else NONEV,
                  _item2colid=index_map(T, name + '.cmap', m.cols) if cached else NONEV)
    return m


def result(T, s, r):
    """fields of a result matrix; None when it is no matrix object"""
    v = T.eng.val(s, r)
    T.post(s, 'the result is a matrix object', z3.BoolVal(isinstance(v, ObjV) and v.cls == TTM))
    m = Mx()
    m.ref, m.v = r, v
    m.a = T.snap(v.fields['matrix'], s)
    m.rows, m.cols = T.snap(v.fields['row_items'], s), T.snap(v.fields['col_items'], s)
    return m


def wf(T, s, m):
    """class invariant of TypeTokenMatrix"""
    f = m.v.fields
    T.post(s, 'one label per row and column', z3.And(m.a.shape[0] == m.rows.n, m.a.shape[1] == m.cols.n))
    b = T.eng.val(s, f['_mxbehavior'])
    same = isinstance(b, ObjV) and isinstance(b.fields['matrix'], Ref) and isinstance(f['matrix'], Ref) and b.fields['matrix'].cell == f['matrix'].cell
    ok = b.cls == BEH['sp'] if m.a.kind == 'sp' else b.cls in (BEH['nd'], BEH['sq'])
    T.post(s, 'the behaviour object works on the same cells', z3.BoolVal(bool(same and ok)))
    for c, l in (('_item2rowid', m.rows), ('_item2colid', m.cols)):
        d = T.snap(f[c], s)
        if isinstance(d, NoneV): continue
        if isinstance(d, OptV): raise Unsupported('optional cache')
        T.post(s, 'cached label index agrees with the labels', z3.And(foralli(l.n, lambda i: z3.And(d.dom(l.get(i)), d.val(l.get(i)).t == i)),
               forall([STR], lambda k: z3.Implies(d.dom(k), z3.And(rng(d.val(k).t, l.n), eqv(l.get(d.val(k).t), k))))))


def cells_kept(T, s, src, dst, label='every cell sits under its labels', flip=False, stored=True):
    """cells with the same row and column labels are equal"""
    i, j, p, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijpq']
    pr = [rng(i, dst.rows.n), rng(j, dst.cols.n), rng(p, src.rows.n), rng(q, src.cols.n), eqv(dst.rows.get(i), src.rows.get(p)), eqv(dst.cols.get(j), src.cols.get(q))]
    x, y = dst.a.get(i, j), src.a.get(p, q)
    if dst.a.dt != src.a.dt: raise Unsupported('element type changed')
    T.post(s, label, z3.ForAll([i, j, p, q], z3.Implies(z3.And(*pr), x == y)))
    if stored and dst.a.kind == 'sp' and src.a.kind == 'sp':
        T.post(s, 'stored entries stay stored and no others', z3.ForAll([i, j, p, q], z3.Implies(z3.And(*pr), dst.a.stored(i, j) == src.a.stored(p, q))))
    T.post(s, 'same kind of storage', z3.BoolVal(dst.a.kind == src.a.kind))


def same_labels(T, s, got, want, label): T.post(s, label, eqv(got, want))


def selected(T, s, got, req, known, label):
    """got = the requested labels that exist, in the requested order, each once (requested labels are distinct)"""
    T.post(s, label + ': every one was requested and exists', foralli(got.n, lambda i: z3.And(mem(req, got.get(i)), mem(known, got.get(i)))))
    T.post(s, label + ': every requested one that exists is there', foralli(req.n, lambda i: z3.Implies(mem(known, req.get(i)), mem(got, req.get(i)))))
    i, j, p, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijpq']
    T.post(s, label + ': requested order, none twice', z3.ForAll([i, j, p, q], z3.Implies(z3.And(0 <= i, i < j, j < got.n, rng(p, req.n), rng(q, req.n),
           eqv(req.get(p), got.get(i)), eqv(req.get(q), got.get(j))), p < q)))


def behaves(T, outs):
    """outcomes of an operation that builds a dense result: it may turn out symmetric with different labels (ValueError)"""
    return T.normal(outs, raises={'ValueError': True})


FORMS = ('csr', 'csc', 'nd')
SUB = [(f, w, c) for f, c in (('csr', False), ('csr', True), ('csc', False), ('nd', False)) for w in ('rows', 'cols', 'both')]


@contract('P11', TTM + '.submatrix', params=SUB)
def _(T, p):
    form, which, cached = p
    m = matrix(T, form, cached=cached)
    kw, req = {}, {}
    for w in ('row', 'col'):
        if which in (w + 's', 'both'): kw[w], req[w] = labels(T, 'req' + w)
    none = z3.Or(*[foralli(req[w].n, lambda i: z3.Not(mem(m.rows if w == 'row' else m.cols, req[w].get(i)))) for w in req])
    outs = T.call(TTM + '.submatrix', [m.ref], kw)
    for s, r in (behaves(T, outs) if m.dense else T.normal(outs)):
        if isinstance(r, NoneV):
            T.post(s, 'nothing is returned only when none of the labels exists', none)
            continue
        d = result(T, s, r)
        wf(T, s, d)
        cells_kept(T, s, m, d)
        for w, got, known in (('row', d.rows, m.rows), ('col', d.cols, m.cols)):
            if w in req: selected(T, s, got, req[w], known, w + ' labels')
            else: same_labels(T, s, got, known, 'all %s labels kept' % w)
        T.unchanged(s, 'source unchanged', m.arr, *[kw[w] for w in kw])
        T.unchanged(s, 'source labels unchanged', T.eng.val(T.st, m.ref).fields['row_items'], T.eng.val(T.st, m.ref).fields['col_items'])
        T.fresh_from(s, 'the labels are not shared with the source', r, T.eng.val(T.st, m.ref).fields['row_items'], T.eng.val(T.st, m.ref).fields['col_items'], m.arr)


@contract('P11', TTM + '.reorder', params=[(f, ax) for f in FORMS for ax in (0, 1)])
def _(T, p):
    form, ax = p
    m = matrix(T, form)
    items = m.rows if ax == 0 else m.cols
    lr, l = labels(T, 'order')
    # the new order lists labels of the matrix, each once: all of them or only some
    unknown = z3.Not(foralli(l.n, lambda i: mem(items, l.get(i))))
    outs = T.call(TTM + '.reorder', [m.ref, lr], {'axis': I(ax)})
    for s, r in T.normal(outs, raises={'KeyError': unknown, **({'ValueError': True} if m.dense else {})}):
        d = result(T, s, r)
        wf(T, s, d)
        cells_kept(T, s, m, d)
        same_labels(T, s, d.rows, l if ax == 0 else m.rows, 'row labels')
        same_labels(T, s, d.cols, l if ax == 1 else m.cols, 'column labels')
        T.unchanged(s, 'source unchanged', m.arr, lr)


@contract('P11', TTM + '.transpose', params=FORMS)
def _(T, form):
    m = matrix(T, form)
    outs = T.call(TTM + '.transpose', [m.ref])
    for s, r in (behaves(T, outs) if m.dense else T.normal(outs)):
        d = result(T, s, r)
        wf(T, s, d)
        same_labels(T, s, d.rows, m.cols, 'row labels are the column labels')
        same_labels(T, s, d.cols, m.rows, 'column labels are the row labels')
        T.post(s, 'cells are swapped', forall2(m.rows.n, m.cols.n, lambda i, j: d.a.get(j, i) == m.a.get(i, j)))
        if d.a.kind == 'sp': T.post(s, 'stored entries are swapped', forall2(m.rows.n, m.cols.n, lambda i, j: d.a.stored(j, i) == m.a.stored(i, j)))
        T.unchanged(s, 'source unchanged', m.arr)


@contract('P11', TTM + '.concatenate', params=[(f, ax) for f in FORMS for ax in (0, 1)])
def _(T, p):
    form, ax = p
    m = matrix(T, form, 'm')
    rr, cr = T.eng.val(T.st, m.ref).fields['row_items'], T.eng.val(T.st, m.ref).fields['col_items']
    o = matrix(T, form, 'o', **({'cols': (T.eng.box(T.st, m.cols), m.cols)} if ax == 0 else {'rows': (T.eng.box(T.st, m.rows), m.rows)}))
    outs = T.call(TTM + '.concatenate', [m.ref, o.ref], {'axis': I(ax)})
    for s, r in (behaves(T, outs) if m.dense else T.normal(outs)):
        d = result(T, s, r)
        wf(T, s, d)
        n1 = m.rows.n if ax == 0 else m.cols.n
        n2 = o.rows.n if ax == 0 else o.cols.n
        got, a, b = (d.rows, m.rows, o.rows) if ax == 0 else (d.cols, m.cols, o.cols)
        T.post(s, 'labels of the first, then of the second', z3.And(got.n == n1 + n2, foralli(n1, lambda i: eqv(got.get(i), a.get(i))), foralli(n2, lambda i: eqv(got.get(n1 + i), b.get(i)))))
        same_labels(T, s, d.cols if ax == 0 else d.rows, m.cols if ax == 0 else m.rows, 'the other labels are kept')
        pick = (lambda i, j: (i, j)) if ax == 0 else (lambda i, j: (j, i))
        oth = m.cols.n if ax == 0 else m.rows.n
        T.post(s, 'cells of the first', forall2(n1, oth, lambda i, j: d.a.get(*pick(i, j)) == m.a.get(*pick(i, j))))
        T.post(s, 'cells of the second', forall2(n2, oth, lambda i, j: d.a.get(*pick(n1 + i, j)) == o.a.get(*pick(i, j))))
        T.unchanged(s, 'sources unchanged', m.arr, o.arr)


@contract('P11', TTM + '.__getitem__', params=[(f, k) for f in ('csr', 'nd') for k in ('str', 'int', 'str,str', 'int,int', 'str,int', 'slice')])
def _(T, p):
    form, k = p
    m = matrix(T, form)
    a = {'str': T.sym(STR, 'r'), 'int': T.sym(INT, 'i')}
    c = {'str': T.sym(STR, 'c'), 'int': T.sym(INT, 'j')}
    pos = lambda l, x, i: z3.And(rng(i, l.n), eqv(l.get(i), x) if x.ty == STR else z3.Or(x.t == i, x.t + l.n == i))
    if k == 'slice':
        hi = T.sym(INT, 'hi')
        T.pre(rng(hi.t, m.rows.n + 1))
        arg = ConcV('slice', lo=NONEV, hi=hi, step=NONEV)
        for s, r in T.normal(T.call(TTM + '.__getitem__', [m.ref, arg])):
            d = T.snap(r, s)
            if not isinstance(d, ArrV): raise Unsupported('slice result')
            if len(d.shape) == 2:
                T.post(s, 'the first rows', z3.And(d.shape[0] == hi.t, forall2(hi.t, m.cols.n, lambda i, j: d.get(i, j) == m.a.get(i, j))))
            else:
                T.post(s, 'a single row comes back as a vector', z3.And(hi.t == 1, foralli(m.cols.n, lambda j: d.get(j) == m.a.get(0, j))))
        return
    parts = k.split(',')
    x = a[parts[0]]
    y = c[parts[1]] if len(parts) > 1 else None
    i, j = z3.Ints('gi gj')
    if x.ty == STR: badx = z3.Not(mem(m.rows, x))
    else: badx = z3.Not(rng(z3.If(x.t < 0, x.t + m.rows.n, x.t), m.rows.n))
    bady = z3.BoolVal(False)
    if y is not None: bady = z3.Not(mem(m.cols, y)) if y.ty == STR else z3.Not(rng(z3.If(y.t < 0, y.t + m.cols.n, y.t), m.cols.n))
    ok = {'KeyError': z3.Or(badx if x.ty == STR else z3.BoolVal(False), bady if y is not None and y.ty == STR else z3.BoolVal(False)),
          'IndexError': z3.Or(badx if x.ty == INT else z3.BoolVal(False), bady if y is not None and y.ty == INT else z3.BoolVal(False))}
    for s, r in T.normal(T.call(TTM + '.__getitem__', [m.ref, x if y is None else TupV([x, y])]), raises=ok):
        d = T.snap(r, s)
        if y is None:
            T.post(s, 'the row with that label', z3.And(d.shape[0] == m.cols.n, z3.ForAll([i, j], z3.Implies(z3.And(pos(m.rows, x, i), rng(j, m.cols.n)), d.get(j) == m.a.get(i, j)))))
        else:
            T.post(s, 'the cell with those labels', z3.ForAll([i, j], z3.Implies(z3.And(pos(m.rows, x, i), pos(m.cols, y, j)), d.t == m.a.get(i, j))))
        T.unchanged(s, 'source unchanged', m.arr)


# ------------------------------------------------------------------------------------------- sums and counts (P15)
def total(T, n, f):
    """sum_{i<n} f(i)"""
    i = z3.FreshConst(z3.IntSort(), 'i')
    return T.eng.new_sum([], i, f(i)).at([], n)


def totals(T, n, f):
    """i -> sum_{j<n} f(i, j)"""
    i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    d = T.eng.new_sum([i], j, f(i, j))
    return lambda t: d.at([t], n)


ALLF = ('csr', 'csc', 'coo', 'nd', 'sq')


@contract('P15', TTM + '.sum', params=[(f, ax, dt) for f in ALLF for ax in (0, 1, None) for dt in ((REAL, INT) if f in ('csr', 'nd') else (REAL,))])
def _(T, p):
    form, ax, dt = p
    m = matrix(T, form, dt=dt)
    for s, r in T.normal(T.call(TTM + '.sum', [m.ref], {} if ax is None else {'axis': I(ax)})):
        if ax is None:
            rs = totals(T, m.cols.n, m.a.get)
            T.post(s, 'the grand total is the sum of all cells', T.snap(r, s).t == total(T, m.rows.n, rs))
        else:
            d = T.snap(r, s)
            l = m.rows if ax == 1 else m.cols
            w = totals(T, m.cols.n, m.a.get) if ax == 1 else totals(T, m.rows.n, lambda j, i: m.a.get(i, j))
            T.post(s, 'every label has a sum', foralli(l.n, lambda i: d.dom(l.get(i))))
            T.post(s, 'only labels are keys', forall([STR], lambda k: z3.Implies(d.dom(k), mem(l, k))))
            T.post(s, 'the sum of exactly the cells under that label', foralli(l.n, lambda i: d.val(l.get(i)).t == w(i)))
        T.unchanged(s, 'matrix unchanged', m.arr)


@contract('P15', TTM + '.count_nonzero', params=[(f, ax) for f in ALLF for ax in (0, 1)])
def _(T, p):
    form, ax = p
    m = matrix(T, form)
    for s, r in T.normal(T.call(TTM + '.count_nonzero', [m.ref], {'axis': I(ax)})):
        v = T.snap(r, s)
        one = lambda i, j: z3.If(m.a.get(i, j) != 0, z3.IntVal(1), z3.IntVal(0))
        w = totals(T, m.cols.n, one) if ax == 0 else totals(T, m.rows.n, lambda j, i: one(i, j))
        n = m.rows.n if ax == 0 else m.cols.n
        T.post(s, 'one count per label', v.shape[0] == n)
        T.post(s, 'the number of non-zero cells', foralli(n, lambda i: v.get(i) == w(i)))
        T.unchanged(s, 'matrix unchanged', m.arr)


# ------------------------------------------------------------------------------------------- thresholds (P14)
CMP = {'__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b, '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b}


@contract('P14', TTM + '.comparison', params=[(op, f, x) for op in sorted(CMP) for f in ('csr', 'csc', 'coo', 'nd') for x in (REAL, INT)], label='TypeTokenMatrix comparison')
def _(T, p):
    op, form, ty = p
    m = matrix(T, form)
    x = T.sym(ty, 'x')
    xr = z3.ToReal(x.t) if ty == INT else x.t
    outs = T.call(TTM + '.' + op, [m.ref, x])
    for s, r in (behaves(T, outs) if m.dense else T.normal(outs)):
        d = result(T, s, r)
        wf(T, s, d)
        same_labels(T, s, d.rows, m.rows, 'row labels')
        same_labels(T, s, d.cols, m.cols, 'column labels')
        T.post(s, 'a boolean mask', z3.BoolVal(d.a.dt == BOOL))
        if m.dense: T.post(s, 'exactly the cells that satisfy the comparison', forall2(m.rows.n, m.cols.n, lambda i, j: d.a.get(i, j) == CMP[op](m.a.get(i, j), xr)))
        else:
            hit = lambda i, j: z3.And(m.a.stored(i, j), CMP[op](m.a.get(i, j), xr))
            T.post(s, 'exactly the stored cells that satisfy the comparison', forall2(m.rows.n, m.cols.n, lambda i, j: d.a.stored(i, j) == hit(i, j)))
            T.post(s, 'marked with True', forall2(m.rows.n, m.cols.n, lambda i, j: d.a.get(i, j) == hit(i, j)))
        T.unchanged(s, 'source unchanged', m.arr)


@contract('P14', TTM + '.multiply', params=('csr', 'csc', 'coo', 'nd'))
def _(T, form):
    m = matrix(T, form)
    k = matrix(T, 'nd' if form == 'nd' else 'csr', 'k', dt=BOOL, rows=(T.eng.box(T.st, m.rows), m.rows), cols=(T.eng.box(T.st, m.cols), m.cols))
    if form != 'nd': T.pre(forall2(m.rows.n, m.cols.n, lambda i, j: z3.Implies(k.a.stored(i, j), k.a.get(i, j))))
    outs = T.call(TTM + '.multiply', [m.ref, k.ref])
    for s, r in (behaves(T, outs) if m.dense else T.normal(outs)):
        d = result(T, s, r)
        wf(T, s, d)
        same_labels(T, s, d.rows, m.rows, 'row labels')
        same_labels(T, s, d.cols, m.cols, 'column labels')
        T.post(s, 'marked cells keep their value, the others are empty', forall2(m.rows.n, m.cols.n, lambda i, j: d.a.get(i, j) == z3.If(k.a.get(i, j), m.a.get(i, j), z3.RealVal(0))))
        if not m.dense: T.post(s, 'nothing is stored outside the mask', forall2(m.rows.n, m.cols.n, lambda i, j: z3.Implies(d.a.stored(i, j), z3.And(k.a.get(i, j), m.a.stored(i, j)))))
        T.unchanged(s, 'sources unchanged', m.arr, k.arr)


@contract('P14', TTM + '.empty_rows', params=('csr', 'csc', 'coo'))
def _(T, form):
    m = matrix(T, form)
    for s, r in T.normal(T.call(TTM + '.empty_rows', [m.ref])):
        l = T.snap(r, s)
        zero = lambda i: foralli(m.cols.n, lambda j: m.a.get(i, j) == 0)
        T.post(s, 'every reported row is all zero', foralli(l.n, lambda q: z3.Not(foralli(m.rows.n, lambda i: z3.Not(z3.And(eqv(m.rows.get(i), l.get(q)), zero(i)))))))
        T.post(s, 'every all-zero row is reported', foralli(m.rows.n, lambda i: z3.Implies(zero(i), mem(l, m.rows.get(i)))))
        T.unchanged(s, 'matrix unchanged', m.arr)


@contract('P14', TTM + '.drop', params=[(f, ax) for f in ('csr', 'csc') for ax in (0, 1)])
def _(T, p):
    form, ax = p
    m = matrix(T, form)
    n = T.sym(INT, 'n')
    one = lambda i, j: z3.If(m.a.get(i, j) != 0, z3.IntVal(1), z3.IntVal(0))
    w = totals(T, m.cols.n, one) if ax == 0 else totals(T, m.rows.n, lambda j, i: one(i, j))
    items = m.rows if ax == 0 else m.cols
    for s, r in T.normal(T.call(TTM + '.drop', [m.ref], {'axis': I(ax), 'n_nonzero': n})):
        if isinstance(r, NoneV):
            T.post(s, 'nothing is left only when nothing qualifies', foralli(items.n, lambda i: w(i) <= n.t))
            continue
        d = result(T, s, r)
        wf(T, s, d)
        cells_kept(T, s, m, d)
        got = d.rows if ax == 0 else d.cols
        i, j, p_, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijpq']
        T.post(s, 'only labels with more values are kept', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, got.n), rng(j, items.n), eqv(got.get(i), items.get(j))), w(j) > n.t)))
        T.post(s, 'every label with more values is kept', foralli(items.n, lambda i: z3.Implies(w(i) > n.t, mem(got, items.get(i)))))
        T.post(s, 'no label is invented', foralli(got.n, lambda i: mem(items, got.get(i))))
        T.post(s, 'order kept, none twice', z3.ForAll([i, j, p_, q], z3.Implies(z3.And(0 <= i, i < j, j < got.n, rng(p_, items.n), rng(q, items.n),
               eqv(items.get(p_), got.get(i)), eqv(items.get(q), got.get(j))), p_ < q)))
        same_labels(T, s, d.cols if ax == 0 else d.rows, m.cols if ax == 0 else m.rows, 'the other labels are kept')
        T.unchanged(s, 'source unchanged', m.arr)


@contract('P14', TTM + '.drop_empty', params=[(f, ax) for f in ('csr', 'csc') for ax in (0, 1)])
def _(T, p):
    form, ax = p
    m = matrix(T, form)
    zr = lambda i: foralli(m.cols.n if ax == 0 else m.rows.n, lambda j: (m.a.get(i, j) if ax == 0 else m.a.get(j, i)) == 0)
    items = m.rows if ax == 0 else m.cols
    nothing = foralli(items.n, zr)
    for s, r in T.normal(T.call(TTM + '.drop_empty', [m.ref], {'axis': I(ax)}), raises={'AttributeError': nothing}):
        if isinstance(r, NoneV):
            T.post(s, 'nothing is left only when everything is empty', nothing)
            continue
        d = result(T, s, r)
        wf(T, s, d)
        cells_kept(T, s, m, d)
        got = d.rows if ax == 0 else d.cols
        i, j, p_, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijpq']
        T.post(s, 'no empty label is kept', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, got.n), rng(j, items.n), eqv(got.get(i), items.get(j))), z3.Not(zr(j)))))
        T.post(s, 'every other label is kept', foralli(items.n, lambda i: z3.Implies(z3.Not(zr(i)), mem(got, items.get(i)))))
        T.post(s, 'no label is invented', foralli(got.n, lambda i: mem(items, got.get(i))))
        same_labels(T, s, d.cols if ax == 0 else d.rows, m.cols if ax == 0 else m.rows, 'the other labels are kept')
        T.unchanged(s, 'source unchanged', m.arr)


@contract('P14', MX + ':SparseMatrix.drop_zero_rows', params=[(f, w) for f in ('csr', 'coo') for w in ('rows', 'cols')])
def _(T, p):
    form, w = p
    m = matrix(T, form)
    b = T.eng.val(T.st, m.ref).fields['_mxbehavior']
    for s, r in T.normal(T.call(MX + ':SparseMatrix.drop_zero_' + w, [b])):
        d = T.snap(r, s)
        # a strictly increasing selection of the non-empty rows / columns, cells unchanged
        ax = 0 if w == 'rows' else 1
        n, oth = m.a.shape[ax], m.a.shape[1 - ax]
        ok = lambda i: z3.Not(foralli(oth, lambda j: z3.Not(m.a.stored(i, j) if ax == 0 else m.a.stored(j, i))))
        kept = z3.Function('kept!%d' % ax, z3.IntSort(), z3.IntSort())
        T.post(s, 'the other dimension stays', d.shape[1 - ax] == oth)
        T.post(s, 'no row is left without stored cells', foralli(d.shape[ax], lambda i: z3.Not(foralli(oth, lambda j: z3.Not(d.stored(i, j) if ax == 0 else d.stored(j, i))))))
        T.unchanged(s, 'source unchanged', m.arr)


# ------------------------------------------------------------------------------------------- merging (P12)
def lookup(m, r, c):
    """value of the cell under the labels r, c (0 when the matrix has no such labels), for distinct labels: as a relation"""
    i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    has = z3.Exists([i, j], z3.And(rng(i, m.rows.n), rng(j, m.cols.n), eqv(m.rows.get(i), r), eqv(m.cols.get(j), c)))
    val = lambda x: z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.rows.n), rng(j, m.cols.n), eqv(m.rows.get(i), r), eqv(m.cols.get(j), c)), m.a.get(i, j) == x))
    return has, val


def merged_post(T, s, a, rows, cols, ms):
    """(a, rows, cols) is the merge of the two matrices ms"""
    m, o = ms
    T.post(s, 'one label per row and column', z3.And(a.shape[0] == rows.n, a.shape[1] == cols.n))
    for l, x, y, w in ((rows, m.rows, o.rows, 'row'), (cols, m.cols, o.cols, 'column')):
        T.post(s, 'every %s label comes from an input' % w, foralli(l.n, lambda i: z3.Or(mem(x, l.get(i)), mem(y, l.get(i)))))
        T.post(s, 'every %s label of the first is kept' % w, foralli(x.n, lambda i: mem(l, x.get(i))))
        T.post(s, 'every %s label of the second is kept' % w, foralli(y.n, lambda i: mem(l, y.get(i))))
        i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
        T.post(s, 'no %s label twice' % w, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.n), z3.Not(eqv(l.get(i), l.get(j))))))
    i, j, p, q, u, v = [z3.FreshConst(z3.IntSort(), x) for x in 'ijpquv']
    at = lambda x, p, q: z3.And(rng(p, x.rows.n), rng(q, x.cols.n), eqv(rows.get(i), x.rows.get(p)), eqv(cols.get(j), x.cols.get(q)))
    cell = z3.And(rng(i, rows.n), rng(j, cols.n))
    absent = lambda x: z3.Or(z3.Not(mem(x.rows, rows.get(i))), z3.Not(mem(x.cols, cols.get(j))))
    T.post(s, 'cells of both inputs are added', z3.ForAll([i, j, p, q, u, v], z3.Implies(z3.And(cell, at(m, p, q), at(o, u, v)), a.get(i, j) == m.a.get(p, q) + o.a.get(u, v))))
    T.post(s, 'cells of the first alone are kept', z3.ForAll([i, j, p, q], z3.Implies(z3.And(cell, at(m, p, q), absent(o)), a.get(i, j) == m.a.get(p, q))))
    T.post(s, 'cells of the second alone are kept', z3.ForAll([i, j, p, q], z3.Implies(z3.And(cell, at(o, p, q), absent(m)), a.get(i, j) == o.a.get(p, q))))
    T.post(s, 'all other cells are empty', z3.ForAll([i, j], z3.Implies(z3.And(cell, absent(m), absent(o)), a.get(i, j) == 0)))


def two(T, form, how):
    m = matrix(T, form, 'm')
    kw = {}
    if how in ('rows', 'same'): kw['rows'] = (T.eng.box(T.st, m.rows), m.rows)
    if how in ('cols', 'same'): kw['cols'] = (T.eng.box(T.st, m.cols), m.cols)
    return m, matrix(T, form, 'o', **kw)


def nothing_stored(*ms):
    return z3.And(*[forall2(m.rows.n, m.cols.n, lambda i, j: z3.Not(m.a.stored(i, j))) for m in ms])


@contract('P12x', TTM + '.merge', params=('csr', 'csc'))
def _(T, form):
    m, o = two(T, form, 'free')
    for s, r in T.normal(T.call(TTM + '.merge', [m.ref, o.ref]), raises={'ValueError': nothing_stored(m, o)}):
        d = result(T, s, r)
        wf(T, s, d)
        merged_post(T, s, d.a, d.rows, d.cols, (m, o))
        T.unchanged(s, 'inputs unchanged', m.arr, o.arr)


@contract('P12', MXU + ':merge_two_matrices', params=[(f, h) for f in ('csr',) for h in ('same',)])
def _(T, p):
    form, how = p
    m, o = two(T, form, how)
    for s, r in T.normal(T.call(MXU + ':merge_two_matrices', [m.ref, o.ref])):
        d = result(T, s, r)
        wf(T, s, d)
        merged_post(T, s, d.a, d.rows, d.cols, (m, o))
        T.unchanged(s, 'inputs unchanged', m.arr, o.arr)


@contract('P12', MXU + ':merge_matrices', params=[('csr', 'same', 2)])
def _(T, p):
    form, how, n = p
    m, o = two(T, form, how)
    l = T.eng.alloc(T.st, clist([m.ref, o.ref]))
    for s, r in T.normal(T.call(MXU + ':merge_matrices', [l]), raises={'ValueError': nothing_stored(m, o)}):
        v = T.eng.val(s, r)
        a, rows, cols = [T.snap(x, s) for x in v.items]
        merged_post(T, s, a, rows, cols, (m, o))
        T.unchanged(s, 'inputs unchanged', m.arr, o.arr)


@contract('P12', MXU + ':merge_matrix_dict', params=('real', 'int'))
def _(T, kind):
    """any number of nested dictionaries"""
    ty = TList(DD if kind == 'real' else DDI)
    lr = T.new(ty, 'l'); l = T.snap(lr)
    for s, r in T.normal(T.call(MXU + ':merge_matrix_dict', [lr])):
        d = T.snap(r, s)
        if isinstance(d, CDictV) and not d.d: d = empty_dict(STR, TDict(STR, REAL))
        i = z3.FreshConst(z3.IntSort(), 'i')
        has = lambda t, p, q: z3.And(l.get(t).dom(p), l.get(t).val(p).dom(q))
        pk, pc = keyconst(STR); qk, qc = keyconst(STR)
        zero = z3.RealVal(0) if kind == 'real' else z3.IntVal(0)
        sm = T.eng.new_sum(pc + qc, i, z3.If(has(i, pk, qk), l.get(i).val(pk).val(qk).t, zero))
        T.post(s, 'an entry for exactly the entries of the inputs', forall([STR, STR], lambda p, q: z3.And(d.dom(p), d.val(p).dom(q)) == z3.Exists([i], z3.And(rng(i, l.n), has(i, p, q)))))
        T.post(s, 'every entry is the sum of the entries with that row and column', forall([STR, STR], lambda p, q: z3.Implies(z3.And(d.dom(p), d.val(p).dom(q)),
               d.val(p).val(q).t == sm.at([p.t, q.t], l.n))))
        T.unchanged(s, 'inputs unchanged', lr)
