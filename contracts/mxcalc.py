"""Contracts of nephosem.specutils.mxcalc and the nearest-neighbour functions (P17-P21, P29)."""
import z3
from pydv.task import *
from contracts.mxutils import *

MC = 'nephosem.specutils.mxcalc'
R_ = z3.RealVal


def ln(T, x): return T.eng.uf('ln', z3.RealSort(), z3.RealSort())(x)


def sqrt(T, x): return T.eng.uf('sqrt', z3.RealSort(), z3.RealSort())(x)


def adj(x):
    """exact zeros and ones are moved by 1e-10 before a logarithm is taken"""
    return z3.If(x == 0, R_('1/10000000000'), z3.If(x == 1, R_('9999999999/10000000000'), x))


def formula(T, meas, o11, o21, o12, o22):
    """defining formulas; o11+o12 is the marginal of the row, o11+o21 that of the column"""
    n = o11 + o21 + o12 + o22
    r1, r2, c1, c2 = o11 + o12, o21 + o22, o11 + o21, o12 + o22
    e11 = r1 * c1 / n
    if meas in ('pmi', 'ppmi'):
        x = ln(T, adj(o11 / adj(e11)))
        return z3.If(x < 0, R_(0), x) if meas == 'ppmi' else x
    if meas == 'lik':
        p1, p2, p = adj(o11 / c1), adj(o12 / c2), adj(r1 / n)
        l = lambda a, b, q: a * ln(T, q) + b * ln(T, 1 - q)
        return 2 * (l(o11, o21, p1) + l(o12, o22, p2) - l(o11, o21, p) - l(o12, o22, p))
    if meas == 'chisq': return n * (o11 * o22 - o21 * o12) * (o11 * o22 - o21 * o12) / (c1 * r1 * r2 * c2)
    if meas == 'zscore': return (o11 - e11) / sqrt(T, e11)
    if meas == 'mi': return ln(T, o11 / e11) / ln(T, R_(2))
    if meas == 'dice': return 2 * o11 / (r1 + c1)
    if meas == 'deltap': return o11 / r1 - o21 / r2
    if meas == 'deltapColl': return o11 / c1 - o12 / c2
    if meas == 'logratio': return ln(T, adj(z3.If(o21 == 0, R_(1), (o11 / r1) / (o21 / r2))))


MEAS = [('pmi', 'calc_pmi'), ('ppmi', 'calc_ppmi'), ('lik', 'calc_lik'), ('chisq', 'calc_chisq'), ('zscore', 'calc_zscore'), ('mi', 'calc_mi'), ('dice', 'calc_dice'),
        ('deltap', 'calc_deltap'), ('deltapColl', 'calc_deltap_coll'), ('logratio', 'calc_log_ratio')]


def table(T, ty=REAL):
    """a contingency table with non-negative cells and positive marginals"""
    o = [T.sym(ty, n) for n in ('o11', 'o21', 'o12', 'o22')]
    x = [to_real(v.t) for v in o]
    T.pre(z3.And(*[v >= 0 for v in x]))
    T.pre(z3.And(x[0] + x[1] > 0, x[0] + x[2] > 0, x[1] + x[3] > 0, x[2] + x[3] > 0))
    return o, x


def measure(T, meas, fn, ty):
    o, x = table(T, ty)
    if meas == 'mi': T.pre(x[0] > 0)
    for s, r in T.normal(T.call(MC + ':' + fn, o)):
        T.post(s, 'the value of the defining formula', to_real(T.snap(r, s).t) == formula(T, meas, *x))


for meas_, fn_ in MEAS:
    contract('P17', MC + ':' + fn_, params=[(meas_, 'int'), (meas_, 'real')])(lambda T, p, fn=fn_: measure(T, p[0], fn, INT if p[1] == 'int' else REAL))


@contract('P17', MC + ':adjust_val', params=('int', 'real'))
def _(T, p):
    v = T.sym(INT if p == 'int' else REAL, 'v')
    for s, r in T.normal(T.call(MC + ':adjust_val', [v])):
        T.post(s, 'only exact zeros and ones are moved', to_real(T.snap(r, s).t) == adj(to_real(v.t)))


@contract('P17', MC + ':pairwise_association', params=[m for m, _ in MEAS if m != 'mi'])
def _(T, meas):
    o, x = table(T)
    for s, r in T.normal(T.call(MC + ':pairwise_association', o, {'meas': S(meas)})):
        T.post(s, 'the measure asked for', to_real(T.snap(r, s).t) == formula(T, meas, *x))


# ------------------------------------------------------------------------------------------- association matrices (P18)
def M_(T, meas): return T.eng.uf('measure_' + meas, *([z3.RealSort()] * 5))


def real(eng, st, x): return to_real(eng.val(st, x).t)


def use_measures(T):
    """callers see the measures through their contract (P17): non-negative cells, positive marginals, value of the formula"""
    for meas, fn in MEAS:
        def h(eng, st, args, kw, meas=meas, fn=fn):
            a = list(args) + [kw[k] for k in ('c_a_b', 'c_na_b', 'c_a_nb', 'c_na_nb')[len(args):]]
            x = [real(eng, st, v) for v in a]
            ok = z3.And(*([v >= 0 for v in x] + [x[0] + x[1] > 0, x[0] + x[2] > 0, x[1] + x[3] > 0, x[2] + x[3] > 0]))
            eng.oblige(st, 'the cells handed to %s are a contingency table' % fn, ok)
            return [(st, P(REAL, M_(T, meas)(*x)))]
        T.eng.callees[MC + ':' + fn] = h


def assoc_pre(T, m, R, C, N):
    """the marginals handed in are those of a matrix that contains m"""
    i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    x = to_real(m.a.get(i, j))
    T.pre(z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.a.shape[0]), rng(j, m.a.shape[1]), m.a.stored(i, j)),
          z3.And(x >= 0, R(i) - x >= 0, C(j) - x >= 0, N - R(i) - C(j) + x >= 0, R(i) > 0, C(j) > 0, N - R(i) > 0, N - C(j) > 0))))


def assoc_post(T, s, a, m, R, C, N, meas):
    T.post(s, 'same shape', z3.And(a.shape[0] == m.a.shape[0], a.shape[1] == m.a.shape[1]))
    x = lambda i, j: to_real(m.a.get(i, j))
    T.post(s, 'every stored cell holds the measure of its own cell, row and column', forall2(m.a.shape[0], m.a.shape[1], lambda i, j: z3.Implies(m.a.stored(i, j),
           a.get(i, j) == M_(T, meas)(x(i, j), C(j) - x(i, j), R(i) - x(i, j), N - R(i) - C(j) + x(i, j)))))
    T.post(s, 'cells without a frequency stay empty', forall2(m.a.shape[0], m.a.shape[1], lambda i, j: z3.Implies(z3.Not(m.a.stored(i, j)), z3.And(a.get(i, j) == 0, z3.Not(a.stored(i, j))))))


ASSOC = [m for m, _ in MEAS if m != 'mi'] + ['llik']


@contract('P18', MC + ':calc_association', params=[(m, f) for m in ASSOC for f in ('csr',)] + [('ppmi', 'csc'), ('ppmi', 'coo'), ('dice', 'int')])
def _(T, p):
    meas, f = p
    use_measures(T)
    dt = INT if f == 'int' else REAL
    ar = T.new(TArr('sp2', 'csr' if f == 'int' else f, dt), 'm')
    m = Mx(); m.a = T.snap(ar)
    nr, cr = T.new(TArr('nd1', None, dt), 'nf'), T.new(TArr('nd1', None, dt), 'cf')
    nf, cf = T.snap(nr), T.snap(cr)
    N = T.sym(dt, 'N')
    T.pre(z3.And(nf.shape[0] == m.a.shape[0], cf.shape[0] == m.a.shape[1]))
    R, C = (lambda i: to_real(nf.get(i))), (lambda j: to_real(cf.get(j)))
    assoc_pre(T, m, R, C, to_real(N.t))
    for s, r in T.normal(T.call(MC + ':calc_association', [ar], {'nfreq': nr, 'cfreq': cr, 'N': N, 'meas': S(meas)})):
        assoc_post(T, s, T.snap(r, s), m, R, C, to_real(N.t), 'lik' if meas == 'llik' else meas)
        T.unchanged(s, 'inputs unchanged', ar, nr, cr)


def vocabs(T, m):
    """marginal tables over any items, in any order, that contain the labels of m"""
    from contracts.vocab import vocab, VOC
    out = []
    tot = {}
    for nm, l in (('nf', m.rows), ('cf', m.cols)):
        ref, d = vocab(T, nm)
        T.pre(foralli(l.n, lambda i, l=l, d=d: d.dom(l.get(i))))
        s_ = z3.Real('sum!' + nm)
        tot[ref.cell] = s_
        out.append((ref, d, s_, (lambda i, l=l, d=d: to_real(d.val(l.get(i)).t))))
    def total(eng, st, args, kw): return [(st, P(REAL, tot[args[0].cell]))]
    T.eng.callees[VOC + '.sum'] = total
    return out


@contract('P18', MC + ':compute_association', params=[(me, f, n) for me, f, n in [(m, 'csr', 'given') for m in ASSOC] + [('ppmi', 'csr', 'default'), ('ppmi', 'csc', 'given'), ('ppmi', 'coo', 'default')]])
def _(T, p):
    meas, f, hasn = p
    use_measures(T)
    m = matrix(T, f, cached=True)
    (nr, nd_, ns, R), (cr, cd_, cs, C) = vocabs(T, m)
    kw = {'meas': S(meas)}
    if hasn == 'given':
        kw['N'] = T.sym(REAL, 'N')
        given = kw['N'].t
    else: given = z3.RealVal(0)
    N = z3.If(given != 0, given, z3.If(ns >= cs, ns, cs))
    assoc_pre(T, m, R, C, N)
    for s, r in T.normal(T.call(MC + ':compute_association', [m.ref, nr, cr], kw)):
        d = result(T, s, r)
        wf(T, s, d)
        same_labels(T, s, d.rows, m.rows, 'row labels kept')
        same_labels(T, s, d.cols, m.cols, 'column labels kept')
        assoc_post(T, s, d.a, m, R, C, N, 'lik' if meas == 'llik' else meas)
        T.unchanged(s, 'inputs unchanged', m.arr, nr, cr)


@contract('P18', MC + ':compute_ppmi', params=[(f, a, b, pos) for f in ('csr', 'csc', 'coo') for a, b in ((True, True), (False, False)) for pos in (True, False)] + [('csr', True, False, True), ('csr', False, True, True)])
def _(T, p):
    f, givr, givc, pos = p
    m = matrix(T, f)
    (nr, nd_, ns, R), (cr, cd_, cs, C) = vocabs(T, m)
    x = lambda i, j: m.a.get(i, j)
    kw = {'positive': P(BOOL, z3.BoolVal(pos))}
    if givr: kw['nfreq'] = nr
    if givc: kw['cfreq'] = cr
    if not givr: R = totals(T, m.cols.n, x)
    if not givc: C = totals(T, m.rows.n, lambda j, i: x(i, j))
    N = ns if givr else total(T, m.rows.n, totals(T, m.cols.n, x))
    i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    T.pre(forall2(m.rows.n, m.cols.n, lambda i, j: x(i, j) >= 0))
    T.pre(N >= 0)
    for s, r in T.normal(T.call(MC + ':compute_ppmi', [m.ref], kw)):
        d = result(T, s, r)
        wf(T, s, d)
        same_labels(T, s, d.rows, m.rows, 'row labels kept')
        same_labels(T, s, d.cols, m.cols, 'column labels kept')
        a = d.a
        def val(i, j):
            q = x(i, j) * N / (R(i) * C(j))
            l = ln(T, z3.If(z3.And(R(i) * C(j) > 0, q != 0), q, R_(1)))
            return z3.If(l < 0, R_(0), l) if pos else l
        T.post(s, 'every stored cell holds log(o11 N / (R1 C1))', forall2(m.rows.n, m.cols.n, lambda i, j: z3.Implies(m.a.stored(i, j), a.get(i, j) == val(i, j))))
        T.post(s, 'cells without a frequency stay empty', forall2(m.rows.n, m.cols.n, lambda i, j: z3.Implies(z3.Not(m.a.stored(i, j)), z3.And(a.get(i, j) == 0, z3.Not(a.stored(i, j))))))
        T.unchanged(s, 'input unchanged', m.arr)


# ------------------------------------------------------------------------------------------- token weights (P19)
def type_of(T, toks, fmt):
    """i -> the type that token i names: its first two fields ('lemma/pos') or its first field"""
    eng = T.eng
    i = z3.FreshConst(z3.IntSort(), 'tok')
    s = T.st
    ctx = s.ctx
    s.ctx = tuple(ctx) + (i,) if isinstance(ctx, tuple) else list(ctx) + [i]
    tok = toks.get(i)
    l = eng.methods[('str', 'split')](eng, s, tok, [S('/')], {})
    if fmt == 'lemma': r = eng.snap(s, l).get(z3.IntVal(0)).t
    else:
        two = eng.getslice(s, l, eng.snap(s, l), ConcV('slice', lo=NONEV, hi=I(2), step=NONEV))
        r = eng.norm(s, eng.methods[('str', 'join')](eng, s, S('/'), [two[0][1]], {}))[0][1].t
    s.ctx = ctx
    return lambda k: z3.substitute(r, (i, k))


@contract('P19', MC + ':compute_token_weights', params=[(f, b, fm) for f in ('csr', 'csc', 'coo') for b in (True, False) for fm in ('lemma/pos', 'lemma')] + [('csr', None, None), ('int', False, 'lemma/pos')])
def _(T, p):
    f, bl, fmt = p
    dt = INT if f == 'int' else REAL
    f = 'csr' if f == 'int' else f
    t = matrix(T, f, 't', dt=dt)
    w = matrix(T, f, 'w', cols=(T.eng.box(T.st, t.cols), t.cols))
    kw = {} if bl is None else {'booleanize': P(BOOL, z3.BoolVal(bl)), 'tokenFormat': S(fmt)}
    if bl is None: bl, fmt = True, 'lemma/pos'
    ty = type_of(T, t.rows, fmt)
    for s, r in T.normal(T.call(MC + ':compute_token_weights', [t.ref, w.ref], kw)):
        d = result(T, s, r)
        wf(T, s, d)
        same_labels(T, s, d.rows, t.rows, 'token labels kept')
        same_labels(T, s, d.cols, t.cols, 'context labels kept')
        i, j, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijq']
        x, y = to_real(t.a.get(i, j)), w.a.get(q, j)
        own = z3.And(rng(i, t.rows.n), rng(j, t.cols.n), rng(q, w.rows.n), w.rows.get(q).t == ty(i))
        if bl:
            T.post(s, 'a context word of the token has the weight of the token\'s own type', z3.ForAll([i, j, q], z3.Implies(z3.And(own, x != 0), d.a.get(i, j) == y)))
            T.post(s, 'other context words have none', z3.ForAll([i, j, q], z3.Implies(z3.And(own, x == 0), d.a.get(i, j) == 0)))
        else: T.post(s, 'the position value is scaled by the weight of the token\'s own type', z3.ForAll([i, j, q], z3.Implies(own, d.a.get(i, j) == x * y)))
        T.post(s, 'tokens of types without weights have none', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, t.rows.n), rng(j, t.cols.n), z3.Not(mem(w.rows, P(STR, ty(i))))), d.a.get(i, j) == 0)))
        T.unchanged(s, 'inputs unchanged', t.arr, w.arr)


@contract('P19', MC + ':compute_token_weights', label='compute_token_weights with other columns', params=('csr',))
def _(T, f):
    t = matrix(T, f, 't'); w = matrix(T, f, 'w')
    diff = z3.Not(z3.And(t.cols.n == w.cols.n, foralli(t.cols.n, lambda i: eqv(t.cols.get(i), w.cols.get(i)))))
    for s, r in T.normal(T.call(MC + ':compute_token_weights', [t.ref, w.ref]), raises={'ValueError': diff}):
        T.post(s, 'context words that differ are refused', z3.Not(diff))


# ------------------------------------------------------------------------------------------- distances (P29)
def oriented(m, ax):
    """(rows, cols, labels, cell) of the matrix read along an axis"""
    if ax == 0: return m.rows.n, m.cols.n, m.rows, m.a.get
    return m.cols.n, m.rows.n, m.cols, (lambda i, j: m.a.get(j, i))


def pair_post(T, s, d, m, ax, what, metric, diag=None):
    n, k, labs, cell = oriented(m, ax)
    same_labels(T, s, d.rows, labs, 'row labels in order')
    same_labels(T, s, d.cols, labs, 'column labels in order')
    pw = s.ghost.get('pairwise', ())
    T.post(s, 'one call of the metric', z3.BoolVal(len(pw) == 1 and pw[0][0] == what))
    nm, mt, a, g = pw[0]
    T.post(s, 'the vectors compared are those of the items', z3.And(a.shape[0] == n, a.shape[1] == k, forall2(n, k, lambda i, j: to_real(a.get(i, j)) == cell(i, j))))
    if metric is not None: T.post(s, 'the metric asked for', eqv(mt, metric))
    i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    want = g(i, j) if diag is None else z3.If(i == j, diag, g(i, j))
    T.post(s, 'every cell relates its own two items', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, n)), d.a.get(i, j) == want)))


METRICS = ['cosine', 'euclidean', 'cityblock', 'manhattan', 'l1', 'l2']


@contract('P29', MC + ':compute_distance', params=[(f, ax, mt) for f, ax in [('csr', 0), ('csr', 1), ('csc', 0), ('csc', 1), ('coo', 0), ('coo', 1), ('nd', 0), ('nd', 1), ('sq', 0), ('sq', 1)] for mt in ('cosine', 'euclidean')] + [('csr', 0, m) for m in METRICS[2:]] + [('csr', 0, None)])
def _(T, p):
    f, ax, mt = p
    m = matrix(T, f, cached=True)
    kw = {'axis': I(ax), 'metric': S(mt)} if mt else {}
    for s, r in T.normal(T.call(MC + ':compute_distance', [m.ref], kw)):
        d = result(T, s, r)
        wf(T, s, d)
        pair_post(T, s, d, m, ax, 'dist', S(mt or 'cosine'))
        T.unchanged(s, 'input unchanged', m.arr)


@contract('P29', MC + ':compute_distance', label='compute_distance of any axis and metric', params=('csr', 'nd'))
def _(T, f):
    m = matrix(T, f)
    ax, mt = T.sym(INT, 'axis'), T.sym(STR, 'metric')
    known = z3.Or(*[mt.t == strlit(x) for x in METRICS + ['cos']])
    for s, r in T.normal(T.call(MC + ':compute_distance', [m.ref], {'axis': ax, 'metric': mt}), raises={'ValueError': z3.Not(z3.Or(ax.t == 0, ax.t == 1)), 'NotImplementedError': z3.Not(known)}):
        T.post(s, 'only rows or columns', z3.Or(ax.t == 0, ax.t == 1))
        nm, mtv, a, g = s.ghost['pairwise'][-1]
        T.post(s, 'the metric asked for', eqv(mtv, mt))
        T.unchanged(s, 'input unchanged', m.arr)


@contract('P29', MC + ':compute_cosine', params=[(f, ax) for f in ('csr', 'csc', 'coo', 'nd', 'sq') for ax in (0, 1)])
def _(T, p):
    f, ax = p
    m = matrix(T, f, cached=True)
    for s, r in T.normal(T.call(MC + ':compute_cosine', [m.ref], {'axis': I(ax)})):
        d = result(T, s, r)
        wf(T, s, d)
        pair_post(T, s, d, m, ax, 'cos', None, R_(1))
        T.unchanged(s, 'input unchanged', m.arr)


@contract('P29', MC + ':compute_cos', params=[(f, ax) for f in ('csr',) for ax in (0, 1)])
def _(T, p):
    f, ax = p
    m = matrix(T, f)
    for s, r in T.normal(T.call(MC + ':compute_cos', [m.ref], {'axis': I(ax)})):
        d = result(T, s, r)
        wf(T, s, d)
        pair_post(T, s, d, m, ax, 'cos', None, R_(1))


# ------------------------------------------------------------------------------------------- token vectors (P20)
def sums3(T, m, n, k, f):
    """(i, j) -> sum_{q<k} f(i, j, q)"""
    i, j, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijq']
    d = T.eng.new_sum([i, j], q, f(i, j, q))
    return lambda a, b: d.at([a, b], k)


def vec_pre(T, how, other=False):
    l = matrix(T, 'csr', 'l')
    r = matrix(T, 'csr', 'r', rows=(T.eng.box(T.st, l.cols), l.cols) if how == 'same' else None)
    pi = None
    if how == 'perm':
        # the same labels in any order
        pi = z3.Function('pi', z3.IntSort(), z3.IntSort())
        i = z3.Int('pii')
        T.pre(r.rows.n == l.cols.n)
        T.pre(z3.ForAll([i], z3.Implies(rng(i, l.cols.n), z3.And(rng(pi(i), r.rows.n), eqv(r.rows.get(pi(i)), l.cols.get(i))))))
        T.pre(foralli(r.rows.n, lambda i: mem(l.cols, r.rows.get(i))))
    else: pi = lambda i: i
    return l, r, pi


def combine(T, l, r, pi, op):
    A, B_ = l.a.get, (lambda q, j: r.a.get(pi(q), j))
    n = l.cols.n
    if op == 'addition': return sums3(T, l.rows.n, r.cols.n, n, lambda i, j, q: A(i, q) * B_(q, j))
    raise Unsupported(op)


@contract('P20', MC + ':compute_token_vectors', params=[(h, n) for h in ('same', 'perm') for n in ('no', 'l1', 'l2')] + [('same', None)])
def _(T, p):
    how, norm = p
    l, r, pi = vec_pre(T, how)
    kw = {'operation': S('addition'), 'normalization': S(norm)} if norm else {}
    w = combine(T, l, r, pi, 'addition')
    for s, v in T.normal(T.call(MC + ':compute_token_vectors', [l.ref, r.ref], kw)):
        d = result(T, s, v)
        wf(T, s, d)
        same_labels(T, s, d.rows, l.rows, 'token labels kept')
        same_labels(T, s, d.cols, r.cols, 'feature labels kept')
        if norm == 'no': want = w
        elif norm == 'l2':
            q = totals(T, r.cols.n, lambda i, j: T.eng.uf('square', z3.RealSort(), z3.RealSort())(w(i, j)))
            want = lambda i, j: z3.If(sqrt(T, q(i)) == 0, w(i, j), w(i, j) / sqrt(T, q(i)))
        else:
            q = totals(T, r.cols.n, lambda i, j: z3.If(w(i, j) < 0, -w(i, j), w(i, j)))
            want = lambda i, j: z3.If(q(i) == 0, w(i, j), w(i, j) / q(i))
        T.post(s, 'the sum of the weighted vectors of the token\'s own context words', forall2(l.rows.n, r.cols.n, lambda i, j: d.a.get(i, j) == want(i, j)))
        T.unchanged(s, 'inputs unchanged', l.arr, r.arr)


@contract('P20', MC + ':compute_token_vectors', label='compute_token_vectors with other context words', params=('addition',))
def _(T, op):
    l, r = matrix(T, 'csr', 'l'), matrix(T, 'csr', 'r')
    same = z3.And(foralli(l.cols.n, lambda i: mem(r.rows, l.cols.get(i))), foralli(r.rows.n, lambda i: mem(l.cols, r.rows.get(i))))
    for s, v in T.normal(T.call(MC + ':compute_token_vectors', [l.ref, r.ref], {'operation': S(op), 'normalization': S('no')}), raises={'ValueError': z3.Not(same)}):
        T.post(s, 'context words that differ are refused', same)


# ------------------------------------------------------------------------------------------- ranks and neighbours (P21)
@contract('P21', MC + ':compute_simrank', params=[(f, rev) for f in ('nd', 'sq') for rev in (False, True, None)])
def _(T, p):
    f, rev = p
    if f == 'nd':
        rr, rows = labels(T, 'm.rows')
        m = matrix(T, f, cached=True, rows=(rr, rows), cols=(T.eng.box(T.st, rows), rows))
    else: m = matrix(T, f, cached=True)
    for s, r in T.normal(T.call(MC + ':compute_simrank', [m.ref], {} if rev is None else {'reverse': P(BOOL, z3.BoolVal(rev))})):
        d = result(T, s, r)
        wf(T, s, d)
        same_labels(T, s, d.rows, m.rows, 'row labels kept')
        same_labels(T, s, d.cols, m.cols, 'column labels kept')
        n = m.cols.n
        i, j, k = [z3.FreshConst(z3.IntSort(), x) for x in 'ijk']
        rk, x = d.a.get, m.a.get
        at = z3.And(rng(i, m.rows.n), rng(j, n), rng(k, n))
        T.post(s, 'ranks run from 1 to the number of items', forall2(m.rows.n, n, lambda i, j: z3.And(1 <= rk(i, j), rk(i, j) <= n)))
        T.post(s, 'no rank twice in a row', z3.ForAll([i, j, k], z3.Implies(z3.And(at, rk(i, j) == rk(i, k)), j == k)))
        T.post(s, 'a better value has a better rank', z3.ForAll([i, j, k], z3.Implies(z3.And(at, (x(i, j) < x(i, k)) if rev else (x(i, j) > x(i, k))), rk(i, j) < rk(i, k))))
        T.unchanged(s, 'input unchanged', m.arr)


def best_k(T, s, idx, n, k, val, better):
    """idx lists min(k, n) different positions below n, none of the others better"""
    want = z3.If(k < n, k, n)
    T.post(s, 'exactly the requested number', idx.n == want if isinstance(idx, ListV) else idx.shape[0] == want)
    g = (lambda i: idx.get(i).t) if isinstance(idx, ListV) else idx.get
    i, j, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijq']
    T.post(s, 'positions of the array', z3.ForAll([i], z3.Implies(rng(i, want), rng(g(i), n))))
    T.post(s, 'no position twice', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, want), rng(j, want), g(i) == g(j)), i == j)))
    T.post(s, 'no other position is better', z3.ForAll([i, q], z3.Implies(z3.And(rng(i, want), rng(q, n), z3.Not(z3.Exists([j], z3.And(rng(j, want), g(j) == q)))), z3.Not(better(val(q), val(g(i)))))))


@contract('P21', MXU + ':get_largest_k', params=('int', 'real'))
def _(T, dt):
    ar = T.new(TArr('nd1', None, INT if dt == 'int' else REAL), 'a'); a = T.snap(ar)
    k = T.sym(INT, 'k'); T.pre(k.t >= 0)
    for s, r in T.normal(T.call(MXU + ':get_largest_k', [ar, k])):
        best_k(T, s, T.snap(r, s), a.shape[0], k.t, a.get, lambda x, y: x > y)
        T.unchanged(s, 'input unchanged', ar)


@contract('P21', MXU + ':get_smallest_k', params=('int', 'real'))
def _(T, dt):
    ar = T.new(TArr('nd1', None, INT if dt == 'int' else REAL), 'a'); a = T.snap(ar)
    k = T.sym(INT, 'k'); T.pre(k.t >= 0)
    for s, r in T.normal(T.call(MXU + ':get_smallest_k', [ar, k])):
        best_k(T, s, T.snap(r, s), a.shape[0], k.t, a.get, lambda x, y: x < y)
        T.unchanged(s, 'input unchanged', ar)


def use_best_k(T):
    """callers see get_largest_k / get_smallest_k through their contract"""
    def mk(better):
        def h(eng, st, args, kw):
            a = eng.snap(st, args[0]); k = eng.snap(st, args[1] if len(args) > 1 else kw['k'])
            eng.oblige(st, 'the number of neighbours is not negative', k.t >= 0)
            n = a.shape[0]
            want = z3.simplify(z3.If(k.t < n, k.t, n))
            r = Family(TArr('nd1', None, INT), 'best%d' % uid(), []).at([])
            inv = eng.uf('where%d' % uid(), z3.IntSort(), z3.IntSort())
            i, q = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'q')
            eng.assume(st, r.shape[0] == want, want >= 0)
            eng.assume(st, z3.ForAll([i], z3.Implies(rng(i, want), z3.And(rng(r.get(i), n), inv(r.get(i)) == i)), patterns=[r.get(i)]))
            eng.assume(st, z3.ForAll([i, q], z3.Implies(z3.And(rng(q, n), rng(i, want), z3.Not(z3.And(rng(inv(q), want), r.get(inv(q)) == q))),
                       z3.Not(better(a.get(q), a.get(r.get(i))))), patterns=[z3.MultiPattern(r.get(i), inv(q))]))
            T.best = getattr(T, 'best', []) + [inv]
            return [(st, eng.box(st, r))]
        return h
    T.eng.callees[MXU + ':get_largest_k'] = mk(lambda x, y: x > y)
    T.eng.callees[MXU + ':get_smallest_k'] = mk(lambda x, y: x < y)


@contract('P21', TTM + '.most_similar', params=(True, False, 'default'))
def _(T, desc):
    if desc == 'default': desc = None
    use_best_k(T)
    m = matrix(T, 'sq')
    item, k = T.sym(STR, 'item'), T.sym(INT, 'k')
    T.pre(z3.And(mem(m.rows, item), k.t >= 0))
    kw = {'k': k}
    if desc is not None: kw['descending'] = P(BOOL, z3.BoolVal(desc))
    for s, r in T.normal(T.call(TTM + '.most_similar', [m.ref, item], kw)):
        l = T.snap(r, s)
        n = m.rows.n
        i, j, q, w, o = [z3.FreshConst(z3.IntSort(), x) for x in 'ijqwo']
        T.post(s, 'exactly the requested number', l.n == z3.If(k.t < n - 1, k.t, n - 1))
        T.post(s, 'items of the matrix', foralli(l.n, lambda i: mem(m.rows, l.get(i))))
        T.post(s, 'never the item itself', foralli(l.n, lambda i: z3.Not(eqv(l.get(i), item))))
        T.post(s, 'no item twice', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.n), z3.Not(eqv(l.get(i), l.get(j))))))
        val = m.a.get
        better = (val(o, q) > val(o, w)) if desc else (val(o, q) < val(o, w))
        T.post(s, 'no other item is better', z3.ForAll([i, o, q, w], z3.Implies(z3.And(rng(i, l.n), rng(o, n), rng(q, n), rng(w, n), eqv(m.rows.get(o), item), eqv(m.rows.get(w), l.get(i)),
               z3.Not(eqv(m.rows.get(q), item)), z3.Not(mem(l, m.rows.get(q)))), z3.Not(better))))
        T.unchanged(s, 'input unchanged', m.arr)
