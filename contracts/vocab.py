"""Contracts of nephosem.core.vocab (P01, P02, P03)."""
import z3
from pydv.task import *

VOC = 'nephosem.core.vocab:Vocab'
FD = TDict(STR, REAL)
FDI = TDict(STR, INT)


def vocab(T, name='v', ty=FD, default=None):
    """a vocabulary with arbitrary items and frequencies, in arbitrary insertion order"""
    fd = T.new(ty, name)
    d = T.snap(fd)
    if default is not None:
        d.default = default
    ref = T.obj(VOC, freq_dict=fd, raw_vocab=NONEV, FILTERPRESENT=T.sym(BOOL, name + '.filter'), encoding=T.sym(STR, name + '.enc'))
    return ref, T.snap(fd)


def fdict(T, st, ref):
    d = T.eng.snap(st, T.eng.val(st, ref).fields['freq_dict'])
    if isinstance(d, CDictV): d = cdict_to_dict(d) if d.d else empty_dict(STR, REAL)
    if d.k is None: d = empty_dict(STR, REAL)
    return d


def num(v): return to_real(v.t)


def is_vocab(T, s, r):
    v = T.eng.val(s, r)
    T.post(s, 'the result is a vocabulary', z3.BoolVal(isinstance(v, ObjV) and v.cls == VOC))


def exactly(T, s, r, d, sel, label=''):
    """the result vocabulary holds exactly the selected items of d with their frequencies"""
    is_vocab(T, s, r)
    e = fdict(T, s, r)
    T.post(s, label + 'exactly the matching items are kept', forall([STR], lambda k: e.dom(k) == z3.And(d.dom(k), sel(k))))
    T.post(s, label + 'kept items have their original frequency', forall([STR], lambda k: z3.Implies(e.dom(k), num(e.val(k)) == num(d.val(k)))))


OPS = {'__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b, '__gt__': lambda a, b: a > b,
       '__ge__': lambda a, b: a >= b, '__eq__': lambda a, b: a == b}


def cmp_contract(op):
    @contract('P01', '%s.%s' % (VOC, op), params=('int', 'float'))
    def _(T, kind):
        ref, d = vocab(T)
        x = T.sym(INT if kind == 'int' else REAL, 'x')
        xr = to_real(x.t)
        for s, r in T.normal(T.call('%s.%s' % (VOC, op), [ref, x])):
            l = T.snap(r, s)
            sat = lambda k: z3.And(d.dom(k), OPS[op](d.val(k).t, xr))
            T.post(s, 'every listed item satisfies the comparison', foralli(l.n, lambda j: sat(l.get(j))))
            T.post(s, 'every satisfying item is listed', forall([STR], lambda k: z3.Implies(sat(k), mem(l, k))))
            i, j = z3.Ints('i j')
            T.post(s, 'no item is listed twice', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.n), z3.Not(eqv(l.get(i), l.get(j))))))
            T.unchanged(s, 'source unchanged', ref)


for _op in OPS: cmp_contract(_op)


@contract('P01', VOC + '.__getattr__')
def _(T):
    ref, d = vocab(T)
    for s, r in T.normal(T.eng.getattr(T.st.fork(), ref, 'freq')):
        T.post(s, 'vocab.freq stands for the vocabulary', z3.BoolVal(isinstance(r, Ref) and r.cell == ref.cell))


@contract('P01', VOC + '._select_by_items')
def _(T):
    ref, d = vocab(T)
    items = T.new(TList(STR), 'items'); l = T.snap(items)
    for s, r in T.normal(T.call(VOC + '._select_by_items', [ref, items])):
        exactly(T, s, r, d, lambda k: mem(l, k))
        T.unchanged(s, 'source unchanged', ref, items)


@contract('P01', VOC + '._select_by_freqs', params=('int', 'real'))
def _(T, kind):
    ref, d = vocab(T, ty=FDI if kind == 'int' else FD)
    fr = T.new(TList(INT if kind == 'int' else REAL), 'freqs'); l = T.snap(fr)
    for s, r in T.normal(T.call(VOC + '._select_by_freqs', [ref, fr])):
        exactly(T, s, r, d, lambda k: mem(l, d.val(k)))
        T.unchanged(s, 'source unchanged', ref, fr)


@contract('P01', VOC + '.__getitem__', params=('item', 'items', 'freqs'))
def _(T, kind):
    ref, d = vocab(T)
    if kind == 'item':
        k = T.sym(STR, 'k')
        for s, r in T.normal(T.call(VOC + '.__getitem__', [ref, k]), raises={'KeyError': z3.Not(d.dom(k))}):
            T.post(s, 'frequency of the item', num(T.eng.val(s, r)) == num(d.val(k)))
            T.unchanged(s, 'source unchanged', ref)
        return
    arg = T.new(TList(STR if kind == 'items' else INT), 'arg'); l = T.snap(arg)
    for s, r in T.normal(T.call(VOC + '.__getitem__', [ref, arg])):
        exactly(T, s, r, d, (lambda k: mem(l, k)) if kind == 'items' else (lambda k: mem(l, d.val(k))))
        T.unchanged(s, 'source unchanged', ref, arg)


@contract('P01', VOC + '.__getitem__', params=(1, 2, 3), label='Vocab.__getitem__[conditions]')
def _(T, n):
    """several conditions: the items that occur in every list"""
    ref, d = vocab(T)
    args = [T.new(TList(STR), 'c%d' % i) for i in range(n)]
    ls = [T.snap(a) for a in args]
    for s, r in T.normal(T.call(VOC + '.__getitem__', [ref, TupV(args)])):
        exactly(T, s, r, d, lambda k: z3.And(*[mem(l, k) for l in ls]))
        T.unchanged(s, 'source unchanged', ref, *args)


def rank_facts(T, s, rows, d, n=None):
    """rows: list of (item, freq) ordered by descending frequency, then item"""
    lt = T.eng.str_lt
    i, j = z3.Ints('ri rj')
    a, b = rows.get(i), rows.get(j)
    return [('each item has its frequency', foralli(rows.n, lambda i: z3.And(d.dom(rows.get(i).items[0]), num(rows.get(i).items[1]) == num(d.val(rows.get(i).items[0]))))),
            ('no item appears twice', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < rows.n), z3.Not(eqv(a.items[0], b.items[0]))))),
            ('ordered by descending frequency, ties by ascending item', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < rows.n),
                z3.Or(num(a.items[1]) > num(b.items[1]), z3.And(num(a.items[1]) == num(b.items[1]), lt(a.items[0].t, b.items[0].t))))))]


@contract('P02', VOC + '.dataframe', params=('real', 'int'))
def _(T, kind):
    ref, d = vocab(T, ty=FD if kind == 'real' else FDI)
    for s, r in T.normal(T.call(VOC + '.dataframe', [ref])):
        T.post(s, 'columns are item and freq', z3.BoolVal(r.cols == ['item', 'freq']))
        rows = r.rows
        for lab, f in rank_facts(T, s, rows, d): T.post(s, lab, f)
        T.post(s, 'every item is listed', forall([STR], lambda k: z3.Implies(d.dom(k), z3.Exists([z3.Int('q')], z3.And(0 <= z3.Int('q'), z3.Int('q') < rows.n, eqv(rows.get(z3.Int('q')).items[0], k))))))
        T.unchanged(s, 'source unchanged', ref)


@contract(['P01', 'P02'], VOC + '.__getitem__', params=('[:n]', '[m:n]', '[m:]'), label='Vocab.__getitem__[slice]')
def _(T, form):
    """vocab[m:n] holds the items of ranks m..n-1 in the order by descending frequency, ties by ascending item"""
    ref, d = vocab(T)
    m, n = T.sym(INT, 'm'), T.sym(INT, 'n')
    sl = ConcV('slice', lo=NONEV if form == '[:n]' else m, hi=NONEV if form == '[m:]' else n, step=NONEV)
    size = T.eng.enum_of(T.st, d)[0]
    clamp = lambda t, dflt: z3.If(t < 0, z3.If(t + size < 0, 0, t + size), z3.If(t > size, size, t))
    lo = z3.IntVal(0) if form == '[:n]' else clamp(m.t, 0)
    hi = size if form == '[m:]' else clamp(n.t, 0)
    pre = T.st.fork()
    frames = T.normal(T.call(VOC + '.dataframe', [ref]))          # its contract is proved above
    if len(frames) != 1: raise Unsupported('data frame paths')
    T.st, fr = frames[0]
    rows = fr.rows
    T.eng.callees[VOC + '.dataframe'] = lambda eng, st, a, k: [(st, fr)]
    for s, r in T.normal(T.call(VOC + '.__getitem__', [ref, sl])):
        is_vocab(T, s, r)
        e = fdict(T, s, r)
        q = z3.Int('q')
        T.post(s, 'exactly the items of the requested ranks', forall([STR], lambda k: e.dom(k) == z3.Exists([q], z3.And(lo <= q, q < hi, eqv(rows.get(q).items[0], k)))))
        T.post(s, 'with their frequencies', forall([STR], lambda k: z3.Implies(e.dom(k), num(e.val(k)) == num(d.val(k)))))
        T.unchanged(s, 'source unchanged', ref)


@contract('P01', VOC + '.subvocab')
def _(T):
    ref, d = vocab(T)
    items = T.new(TList(STR), 'items'); l = T.snap(items)
    for s, r in T.normal(T.call(VOC + '.subvocab', [ref, items])):
        is_vocab(T, s, r)
        e = fdict(T, s, r)
        T.post(s, 'exactly the requested items', forall([STR], lambda k: e.dom(k) == mem(l, k)))
        T.post(s, 'their frequency, or 0', forall([STR], lambda k: z3.Implies(e.dom(k), num(e.val(k)) == z3.If(d.dom(k), num(d.val(k)), 0))))
        T.unchanged(s, 'source unchanged', ref, items)


@contract('P01', VOC + '.select_items')
def _(T):
    ref, d = vocab(T)
    w = T.sym(STR, 'w')
    for s, r in T.normal(T.call(VOC + '.select_items', [ref, w])):
        parts = lambda k: T.strcall(k, 'rsplit', S('/'), I(1))
        exactly(T, s, r, d, lambda k: parts(k).get(z3.IntVal(0)).t == w.t)
        T.unchanged(s, 'source unchanged', ref)


@contract('P02', VOC + '.get_item_list', params=(('alpha', False), ('alpha', True), ('freq', False), ('freq', True)))
def _(T, p):
    sorting, desc = p
    ref, d = vocab(T)
    for s, r in T.normal(T.call(VOC + '.get_item_list', [ref], {'sorting': S(sorting), 'descending': B(desc)})):
        l = T.snap(r, s)
        i, j = z3.Ints('i j')
        T.post(s, 'every listed item is an item', foralli(l.n, lambda j: d.dom(l.get(j))))
        T.post(s, 'every item is listed', forall([STR], lambda k: z3.Implies(d.dom(k), mem(l, k))))
        T.post(s, 'no item is listed twice', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.n), z3.Not(eqv(l.get(i), l.get(j))))))
        a, b = l.get(i), l.get(j)
        if sorting == 'alpha':
            o = T.eng.str_lt(b.t, a.t) if desc else T.eng.str_lt(a.t, b.t)
        else:
            o = num(d.val(a)) >= num(d.val(b)) if desc else num(d.val(a)) <= num(d.val(b))
        T.post(s, 'sorted as requested', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.n), o)))
        T.unchanged(s, 'source unchanged', ref)


# ------------------------------------------------------------------------------------------------- P03
@contract('P03', VOC + '.increment', params=('given', 'default', 'int'))
def _(T, kind):
    ref, d = vocab(T, ty=FDI if kind == 'int' else FD)
    k = T.sym(STR, 'k'); x = T.sym(INT if kind == 'int' else REAL, 'inc')
    inc = z3.RealVal(1) if kind == 'default' else num(x)
    for s, r in T.normal(T.call(VOC + '.increment', [ref, k] + ([] if kind == 'default' else [x]))):
        e = fdict(T, s, ref)
        T.post(s, 'the item is present afterwards', e.dom(k))
        T.post(s, 'exactly the increment is added', num(e.val(k)) == z3.If(d.dom(k), num(d.val(k)), 0) + inc)
        T.post(s, 'no other item changes', forall([STR], lambda q: z3.Implies(q.t != k.t, z3.And(e.dom(q) == d.dom(q), z3.Implies(d.dom(q), num(e.val(q)) == num(d.val(q)))))))


@contract('P03', VOC + '.__setitem__')
def _(T):
    ref, d = vocab(T)
    k = T.sym(STR, 'k'); x = T.sym(REAL, 'x')
    for s, r in T.normal(T.call(VOC + '.__setitem__', [ref, k, x])):
        e = fdict(T, s, ref)
        T.post(s, 'the item has the assigned value', z3.And(e.dom(k), num(e.val(k)) == num(x)))
        T.post(s, 'no other item changes', forall([STR], lambda q: z3.Implies(q.t != k.t, z3.And(e.dom(q) == d.dom(q), z3.Implies(d.dom(q), num(e.val(q)) == num(d.val(q)))))))


@contract('P03', VOC + '.__len__', params=('__len__', '__contains__', 'sum', 'sum_freq', 'isEmpty'))
def _(T, m):
    ref, d = vocab(T)
    n, keyat, idx = T.eng.enum_of(T.st, d)
    k = T.sym(STR, 'k')
    for s, r in T.normal(T.call('%s.%s' % (VOC, m), [ref] + ([k] if m == '__contains__' else []))):
        r = T.eng.val(s, r)
        if m == '__len__': T.post(s, 'size is the number of items', r.t == n)
        elif m == '__contains__': T.post(s, 'membership is presence', T.eng.truth(s, r) == d.dom(k))
        elif m == 'isEmpty': T.post(s, 'empty iff there is no item', T.eng.truth(s, r) == z3.Not(z3.Exists([z3.Const('w', StrSort)], d.dom(P(STR, z3.Const('w', StrSort))))))
        else:
            i = z3.FreshConst(z3.IntSort(), 'i')
            tot = T.eng.new_sum([], i, d.val(keyat(i)).t).at([], n)
            T.post(s, 'total is the sum over the items', num(r) == tot)
        T.unchanged(s, 'source unchanged', ref)


@contract('P03', VOC + '.keys', params=('keys', 'values', 'items'))
def _(T, m):
    ref, d = vocab(T)
    for s, r in T.normal(T.call('%s.%s' % (VOC, m), [ref])):
        l = T.snap(r, s)
        if m == 'keys':
            T.post(s, 'every key is an item', foralli(l.n, lambda j: d.dom(l.get(j))))
            T.post(s, 'every item is a key', forall([STR], lambda k: z3.Implies(d.dom(k), mem(l, k))))
        elif m == 'items':
            T.post(s, 'every pair is an item with its frequency', foralli(l.n, lambda j: z3.And(d.dom(l.get(j).items[0]), num(l.get(j).items[1]) == num(d.val(l.get(j).items[0])))))
            T.post(s, 'every item occurs', forall([STR], lambda k: z3.Implies(d.dom(k), mem(l, TupV([k, d.val(k)])))))
        else:
            T.post(s, 'every frequency occurs', forall([STR], lambda k: z3.Implies(d.dom(k), mem(l, d.val(k)))))
        T.unchanged(s, 'source unchanged', ref)


@contract('P03', VOC + '.copy', params=('copy', 'deepcopy', 'get_dict'))
def _(T, m):
    ref, d = vocab(T)
    for s, r in T.normal(T.call('%s.%s' % (VOC, m), [ref])):
        if m == 'get_dict': e = T.snap(r, s)
        else:
            is_vocab(T, s, r); e = fdict(T, s, r)
            T.post(s, 'keeps the encoding', eqv(T.eng.val(s, r).fields['encoding'], T.eng.val(T.st, ref).fields['encoding']))
        T.post(s, 'same items and frequencies', eqv(coerce(e, FD), d))
        T.fresh_from(s, 'shares nothing with the original', r, ref)
        T.unchanged(s, 'source unchanged', ref)


@contract('P03', VOC + '.__init__', params=('dict', 'defaultdict', 'None', 'DataFrame'))
def _(T, kind):
    if kind == 'None':
        for s, r in T.normal(T.construct(VOC, [])):
            e = T.eng.snap(s, T.eng.val(s, r).fields['freq_dict'])
            T.post(s, 'a vocabulary made from nothing is empty', z3.BoolVal(isinstance(e, CDictV) and not e.d or getattr(e, 'k', 0) is None))
        return
    enc = T.sym(STR, 'enc')
    if kind == 'DataFrame':
        rows = T.sym(TList(TTup(STR, REAL)), 'rows')
        from pydv.nplib import frame
        i, j = z3.Ints('i j')
        T.pre(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < rows.n), rows.get(i).items[0].t != rows.get(j).items[0].t)))
        for s, r in T.normal(T.construct(VOC, [frame(['item', 'freq'], rows), enc])):
            e = fdict(T, s, r)
            T.post(s, 'every row becomes an item', foralli(rows.n, lambda i: z3.And(e.dom(rows.get(i).items[0]), num(e.val(rows.get(i).items[0])) == num(rows.get(i).items[1]))))
            q = z3.Int('q')
            T.post(s, 'no other item', forall([STR], lambda k: z3.Implies(e.dom(k), z3.Exists([q], z3.And(0 <= q, q < rows.n, rows.get(q).items[0].t == k.t)))))
        return
    data = T.new(FD, 'data'); d = T.snap(data)
    if kind == 'defaultdict':
        T.st.heap[data.cell] = DictV(d.k, d.v, d.dom, d.val, d.enum, ConcV('builtin', name='int'))
    for s, r in T.normal(T.construct(VOC, [data, enc])):
        e = fdict(T, s, r)
        T.post(s, 'same items and frequencies', eqv(coerce(e, FD), d))
        T.fresh_from(s, 'shares nothing with the dictionary it was made from', r, data)
        T.unchanged(s, 'the dictionary is unchanged', data)


@contract('P03', VOC + '.equal')
def _(T):
    a, da = vocab(T, 'a'); b, db = vocab(T, 'b')
    for s, r in T.normal(T.call(VOC + '.equal', [a, b])):
        T.post(s, 'equal iff same items and frequencies', T.eng.truth(s, r) == eqv(da, db))
        T.unchanged(s, 'unchanged', a, b)


@contract('P03', VOC + '.__getattr__')
def _(T):
    """an unknown attribute raises (so that copying and pickling protocols work)"""
    ref, d = vocab(T)
    nm = T.sym(STR, 'name')
    for s, r in T.call(VOC + '.__getattr__', [ref, nm]):
        if isinstance(r, Exc): T.post(s, 'only an unknown attribute raises AttributeError', z3.And(z3.BoolVal(r.name == 'AttributeError'), nm.t != strlit('freq')))
        else: T.post(s, 'only freq is answered', z3.And(nm.t == strlit('freq'), z3.BoolVal(isinstance(r, Ref) and r.cell == ref.cell)))
