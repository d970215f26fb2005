"""Contracts of saving and loading: vocabularies (P04), matrices (P16).

The file system is ghost state: what was written where, in which encoding. json, numpy's and zipfile's formats are assumed to
give back what was put in (json: dictionaries with string keys, lists, numbers; repr of a number reads back as that number)."""
import z3
from pydv.task import *
from pydv import iolib
from contracts.corpus import getg, setg, same_ref, VOC, rng
from contracts.mxutils import matrix, result, wf, cells_kept, labels, TTM

UT = 'nephosem.utils'
FORMS = ('int', 'real')
TAB, NL = '\t', '\n'


def numbers(kind): return INT if kind == 'int' else REAL


def shown(eng, v): return eng.uf('str_of_%s' % v.ty.name, v.ty.sort, StrSort)(v.t)


def line_of(eng, k, v): return eng.concat([k.t, S(TAB).t, shown(eng, v), S(NL).t])


class Files(object):
    """files opened by the verified code; `opened(path, mode, encoding)` says what must hold for it to be the right one"""
    def __init__(self, T, check):
        eng = self.eng = T.eng
        self.T, self.check = T, check
        self.g = T.obj('ghost:Ghost', opened=I(0), dumps=I(0))
        self.lines = T.new(TList(STR), 'written')
        self.saved = None          # what json.load gives
        self.dumped = None         # what json.dump must be given
        def opened(e, s, a, k):
            b = dict(zip(('filename', 'mode', 'encoding'), a)); b.update(k)
            mode = iolib.conc(b['mode']) if 'mode' in b else 'r'
            check(e, s, e.val(s, b['filename']), mode, e.val(s, b['encoding']) if 'encoding' in b and not isinstance(b['encoding'], NoneV) else None)
            setg(e, s, self.g, opened=getg(e, s, self.g, 'opened') + 1)
            return e.alloc(s, ObjV('ghost:File', {'write': ConcV('pyfn', f=self.write), 'writelines': ConcV('pyfn', f=self.writelines), 'close': ConcV('pyfn', f=lambda e, s, a, k: NONEV), 'flush': ConcV('pyfn', f=lambda e, s, a, k: NONEV)}))
        eng.ext['codecs.open'] = opened
        eng.ext['builtins.open'] = opened
        def dump(e, s, a, k):
            b = dict(zip(('obj', 'fp'), a)); b.update(k)
            if set(b) - {'obj', 'fp', 'ensure_ascii', 'indent', 'sort_keys'}: raise Unsupported('json option')
            f = e.val(s, b['fp'])
            e.oblige(s, 'written to the file opened', z3.BoolVal(isinstance(f, ObjV) and f.cls == 'ghost:File'))
            self.dumped(e, s, b['obj'])
            setg(e, s, self.g, dumps=getg(e, s, self.g, 'dumps') + 1)
            return NONEV
        eng.ext['json.dump'] = dump
        def load(e, s, a, k):
            f = e.val(s, a[0] if a else k['fp'])
            if set(k) - {'fp'} or len(a) > 1: raise Unsupported('json option')
            e.oblige(s, 'read from the file opened', z3.BoolVal(isinstance(f, ObjV) and f.cls == 'ghost:File'))
            return e.box(s, self.saved)
        eng.ext['json.load'] = load
    def write(self, e, s, a, k):
        e.list_append(s, self.lines, a[0])
        return NONEV
    def writelines(self, e, s, a, k):
        return e.norm(s, e.methods[('list', 'extend')](e, s, self.lines, a, k))


def only(fn, enc, modes):
    def check(e, s, f, m, n):
        e.oblige(s, 'the file is the one named', eqv(f, fn))
        e.oblige(s, 'the file is opened for this', z3.BoolVal(m in modes))
        e.oblige(s, 'in the encoding asked for', eqv(n, enc) if n is not None else z3.BoolVal(False))
    return check


def a_dict(T, kind, name='d'):
    r = T.new(TDict(STR, numbers(kind)), name)
    return r, T.snap(r)


def same_dict(a, b): return forall([STR], lambda w: z3.And(a.dom(w) == b.dom(w), z3.Implies(b.dom(w), eqv(a.val(w), b.val(w)))))


def as_dict(v, kind): return cdict_to_dict(v, TDict(STR, numbers(kind))) if isinstance(v, CDictV) else v


@contract('P04', UT + ':save_dict_json', params=FORMS)
def _(T, kind):
    eng = T.eng
    dr, d = a_dict(T, kind)
    fn, enc = T.sym(STR, 'filename'), T.sym(STR, 'encoding')
    F = Files(T, only(fn, enc, ('w', 'wt')))
    def dumped(e, s, x):
        v = e.snap(s, x)
        e.oblige(s, 'what is written are the items with their frequencies', same_dict(as_dict(v, kind), d) if isinstance(v, (DictV, CDictV)) else z3.BoolVal(False))
        e.oblige(s, 'numbers stay of their kind', z3.BoolVal(not isinstance(v, DictV) or v.v == numbers(kind)))
    F.dumped = dumped
    for s, r in T.normal(T.call(UT + ':save_dict_json', [dr, fn], {'encoding': enc})):
        T.post(s, 'one file is written, once', z3.And(getg(eng, s, F.g, 'opened') == 1, getg(eng, s, F.g, 'dumps') == 1, T.snap(F.lines, s).n == T.snap(F.lines).n))
        T.unchanged(s, 'the dictionary is unchanged', dr)


@contract('P04', UT + ':load_dict_json', params=FORMS)
def _(T, kind):
    eng = T.eng
    d = T.sym(TDict(STR, numbers(kind)), 'saved')
    fn, enc = T.sym(STR, 'filename'), T.sym(STR, 'encoding')
    F = Files(T, only(fn, enc, ('r', 'rt')))
    F.saved = d
    for s, r in T.normal(T.call(UT + ':load_dict_json', [fn], {'encoding': enc})):
        v = T.snap(r, s)
        T.post(s, 'the saved items with the saved frequencies', same_dict(v, d) if isinstance(v, DictV) else z3.BoolVal(False))
        T.post(s, 'numbers stay of their kind', z3.BoolVal(isinstance(v, DictV) and v.v == numbers(kind)))


@contract('P04', UT + ':save_dict_plain', params=[(k, o) for k in FORMS for o in ('freq', 'alpha', 'default')])
def _(T, param):
    kind, order = param
    eng = T.eng
    dr, d = a_dict(T, kind)
    fn, enc = T.sym(STR, 'filename'), T.sym(STR, 'encoding')
    F = Files(T, only(fn, enc, ('w', 'wt')))
    F.lines = T.new(clist([]), 'written')
    n = eng.enum_of(T.st, d)[0]
    for s, r in T.normal(T.call(UT + ':save_dict_plain', [dr, fn], dict({'encoding': enc}, **({} if order == 'default' else {'order': S(order)})))):
        v = T.snap(F.lines, s)
        T.post(s, 'one file is written', getg(eng, s, F.g, 'opened') == 1)
        T.post(s, 'one line for every item', v.n == n)
        at = lambda j: v.items[j] if v.items is not None else None
        if v.items is not None:
            T.post(s, 'no item, no line', z3.And(z3.BoolVal(not v.items), forall([STR], lambda w: z3.Not(d.dom(w))))); continue
        T.post(s, 'every line holds an item and its frequency', foralli(v.n, lambda j: exists([STR], lambda w: z3.And(d.dom(w), v.get(j).t == line_of(eng, w, d.val(w))))))
        T.post(s, 'every item has its line', forall([STR], lambda w: z3.Implies(d.dom(w), exists([INT], lambda j: z3.And(rng(j.t, v.n), v.get(j.t).t == line_of(eng, w, d.val(w)))))))
        T.unchanged(s, 'the dictionary is unchanged', dr)


@contract('P04', UT + ':load_dict_plain', params=FORMS)
def _(T, kind):
    eng = T.eng
    num = numbers(kind)
    fn, enc = T.sym(STR, 'filename'), T.sym(STR, 'encoding')
    n, line = iolib.file_lines(eng, fn.t, enc.t)
    # the file holds the lines written by save_dict_plain for items without tab, line separator or outer blanks
    item, val = eng.uf('saved.item', z3.IntSort(), StrSort), eng.uf('saved.freq', z3.IntSort(), num.sort)
    place = eng.uf('saved.place', StrSort, z3.IntSort())
    eng.assume(T.st, n >= 0)
    i = z3.Int('i!lp')
    k, v = P(STR, item(i)), P(num, val(i))
    sh = shown(eng, v)
    l = P(STR, line(i))
    body = eng.concat([k.t, S(TAB).t, sh])
    isint, isfloat = eng.uf('is_int_str', StrSort, z3.BoolSort())(sh), eng.uf('is_float_str', StrSort, z3.BoolSort())(sh)
    facts = [place(item(i)) == i]
    for a in (('strip',), ('rstrip',), ('rstrip', S(NL)), ('strip', S(NL))): facts.append(T.strcall(l, a[0], *a[1:]).t == body)
    for a in (('split', S(TAB)), ('split', S(TAB), I(1)), ('rsplit', S(TAB), I(1))):
        p = T.strcall(T.strcall(l, 'strip'), *a)
        facts += [p.n == 2, p.get(z3.IntVal(0)).t == k.t, p.get(z3.IntVal(1)).t == sh]
    facts += [isfloat, isint == z3.BoolVal(kind == 'int')]
    if kind == 'int': facts.append(eng.uf('int_of_str', StrSort, z3.IntSort())(sh) == v.t)
    else: facts.append(eng.uf('float_of_str', StrSort, z3.RealSort())(sh) == v.t)
    T.pre(z3.ForAll([i], z3.Implies(rng(i, n), z3.And(*facts)), patterns=[line(i)]))
    for s, r in T.normal(T.call(UT + ':load_dict_plain', [fn], {'encoding': enc})):
        d = T.snap(r, s)
        if isinstance(d, CDictV): d = cdict_to_dict(d, TDict(STR, num))
        T.post(s, 'every saved item is loaded with its frequency', foralli(n, lambda j: z3.And(d.dom(P(STR, item(j))), eqv(d.val(P(STR, item(j))), P(num, val(j))))))
        T.post(s, 'nothing else is loaded', forall([STR], lambda w: z3.Implies(d.dom(w), exists([INT], lambda j: z3.And(rng(j.t, n), item(j.t) == w.t)))))
        T.post(s, 'numbers stay of their kind', z3.Or(n == 0, z3.BoolVal(d.v == num)))


FMTS = ('json', 'plain', 'txt', 'default')
FN = {'json': 'json', 'default': 'json', 'plain': 'plain', 'txt': 'plain'}


@contract('P04', VOC + '.save', params=[(f, e) for f in FMTS for e in ('encoding given', 'own encoding')])
def _(T, param):
    fmt, which = param
    eng = T.eng
    own, enc, fn = T.sym(STR, 'own'), T.sym(STR, 'encoding'), T.sym(STR, 'filename')
    for e in (own, enc): T.pre(e.t != S('').t)
    dr, d = a_dict(T, 'int')
    h = T.obj(VOC, freq_dict=dr, raw_vocab=NONEV, FILTERPRESENT=T.sym(BOOL, 'filter'), encoding=own)
    g = T.obj('ghost:Ghost', runs=I(0))
    for how in ('json', 'plain'):
        def save(e, s, a, k, how=how):
            b = dict(zip(('freq_dict', 'filename', 'encoding', 'order'), a)); b.update(k)
            e.oblige(s, 'saved in the format asked for', z3.BoolVal(how == FN[fmt]))
            e.oblige(s, 'the frequencies are those of the vocabulary', eqv(e.snap(s, b['freq_dict']), d))
            e.oblige(s, 'in the file named', eqv(e.val(s, b['filename']), fn))
            e.oblige(s, 'in the encoding given, else in its own', eqv(e.val(s, b['encoding']), enc if which == 'encoding given' else own) if 'encoding' in b else z3.BoolVal(False))
            setg(e, s, g, runs=getg(e, s, g, 'runs') + 1)
            return [(s, NONEV)]
        eng.callees[UT + ':save_dict_' + how] = save
    kw = {} if fmt == 'default' else {'fmt': S(fmt)}
    if which == 'encoding given': kw['encoding'] = enc
    for s, r in T.normal(T.call(VOC + '.save', [h, fn], kw)):
        T.post(s, 'saved once', getg(eng, s, g, 'runs') == 1)
        T.unchanged(s, 'the vocabulary is unchanged', dr)


@contract('P04', VOC + '.load', params=FMTS)
def _(T, fmt):
    eng = T.eng
    enc, fn = T.sym(STR, 'encoding'), T.sym(STR, 'filename')
    dr, d = a_dict(T, 'int')
    for how in ('json', 'plain'):
        def load(e, s, a, k, how=how):
            b = dict(zip(('filename', 'encoding'), a)); b.update(k)
            e.oblige(s, 'loaded in the format asked for', z3.BoolVal(how == FN[fmt]))
            e.oblige(s, 'from the file named', eqv(e.val(s, b['filename']), fn))
            e.oblige(s, 'in the encoding asked for', eqv(e.val(s, b['encoding']), enc) if 'encoding' in b else z3.BoolVal(False))
            return [(s, dr)]
        eng.callees[UT + ':load_dict_' + how] = load
    kw = {'encoding': enc}
    if fmt != 'default': kw['fmt'] = S(fmt)
    for s, r in T.normal(T.call(VOC + '.load', [fn], kw)):
        v = eng.val(s, r)
        T.post(s, 'the result is a vocabulary', z3.BoolVal(isinstance(v, ObjV) and v.cls == VOC))
        if isinstance(v, ObjV):
            T.post(s, 'with the items and frequencies loaded', same_dict(T.snap(v.fields['freq_dict'], s), d))
            T.post(s, 'in that encoding', eqv(eng.val(s, v.fields['encoding']), enc))


# ------------------------------------------------------------------------------------------- matrices (P16)
# names of the files: with or without '.pac' the base name is the same in save and in load
def names(T, ext):
    """(file name given, base name): save and load must agree on the base name"""
    eng = T.eng
    fn, base, e = T.sym(STR, 'filename'), T.sym(STR, 'base'), T.sym(STR, 'ext')
    split = lambda i: eng.uf('os.path.splitext/1.%d' % i, StrSort, StrSort)(fn.t)
    if ext == '.pac':
        T.pre(z3.And(fn.t == eng.concat([base.t, S('.pac').t]), split(0) == base.t, split(1) == S('.pac').t))
        return fn, base
    T.pre(z3.And(split(1) == e.t, e.t != S('.pac').t))
    return fn, fn


def named(eng, base, ext): return P(STR, eng.concat([base.t, S(ext).t]))


class Disk(object):
    """what may be done to which file, in which order: counters of the ghost object"""
    COUNT = ('opened', 'meta', 'array', 'zip', 'packed_meta', 'packed_array', 'removed_meta', 'removed_array', 'extracted', 'read_array')

    def __init__(self, T, fn, base, enc, form, dense):
        self.T, self.base, self.enc, self.dense = T, base, enc, dense
        eng = self.eng = T.eng
        self.g = T.obj('ghost:Ghost', **{c: I(0) for c in self.COUNT})
        self.metaf, self.pac = named(eng, base, '.meta'), named(eng, base, '.pac')
        self.npz, self.npy = named(eng, base, '.npz'), named(eng, base, '.npy')
        self.arrf = self.npy if dense else self.npz
        eng.ext['os.remove'] = self.remove
    def get(self, s, c): return getg(self.eng, s, self.g, c)
    def inc(self, s, c): setg(self.eng, s, self.g, **{c: self.get(s, c) + 1})
    def remove(self, e, s, a, k):
        f = e.val(s, a[0])
        done = (lambda s: z3.And(self.get(s, 'packed_meta') == 1, self.get(s, 'packed_array') == 1)) if self.saving else (lambda s: self.get(s, 'read_array') >= 1)
        e.oblige(s, 'files are removed only when they are no longer needed', done(s))
        if not self.saving: e.oblige(s, 'files are removed only when they are no longer needed', self.get(s, 'meta') >= 1)
        out = []
        for s1, b in e.split(s, eqv(f, self.metaf)):
            if b: self.inc(s1, 'removed_meta'); out.append((s1, NONEV)); continue
            e.oblige(s1, 'only the unpacked files are removed', eqv(f, self.arrf))
            self.inc(s1, 'removed_array')
            out.append((s1, NONEV))
        return out


ENC = ('utf-8', 'given')
ALLFORMS = ('csr', 'csc', 'coo', 'nd', 'sq')


def distinct_names(T, D):
    eng = T.eng
    T.pre(z3.Distinct(D.metaf.t, D.npz.t, D.npy.t, D.pac.t))


@contract('P16', TTM + '.save', params=[(f, p, x, e) for f in ALLFORMS for p, x in (('pack', '.pac'), ('pack', ''), ('files', '')) for e in ENC if e == 'given' or f == 'csr'])
def _(T, param):
    form, pack, ext, encgiven = param
    eng = T.eng
    m = matrix(T, form, cached=(form == 'csr' and encgiven == 'given'))
    fn, base = names(T, ext)
    enc = T.sym(STR, 'encoding') if encgiven == 'given' else S('utf-8')
    D = Disk(T, fn, base, enc, form, m.dense)
    D.saving = True
    distinct_names(T, D)
    F = Files(T, lambda e, s, f, md, n: (only(D.metaf, enc, ('w', 'wt'))(e, s, f, md, n)))
    def dumped(e, s, x):
        v = e.val(s, x)
        ok = isinstance(v, CDictV) and 'row_items' in v.d and 'col_items' in v.d
        e.oblige(s, 'the labels are written, by axis', z3.And(eqv(e.snap(s, v.d['row_items']), m.rows), eqv(e.snap(s, v.d['col_items']), m.cols)) if ok else z3.BoolVal(False))
        D.inc(s, 'meta')
    F.dumped = dumped
    def savez(e, s, a, k):
        if len(a) != 1 or set(k) != {'data', 'indices', 'indptr', 'shape'}: raise Unsupported('np.savez arguments')
        e.oblige(s, 'arrays are written for sparse matrices', z3.BoolVal(not m.dense))
        e.oblige(s, 'the arrays go to the .npz file', eqv(e.val(s, a[0]), D.npz))
        data, ind, ptr = [e.snap(s, k[w]) for w in ('data', 'indices', 'indptr')]
        sh = e.val(s, k['shape'])
        e.oblige(s, 'the shape is written', z3.And(sh.items[0].t == m.a.shape[0], sh.items[1].t == m.a.shape[1]))
        # rows by index pointer: the written arrays are a csr matrix with the cells of this one
        i, j, q = [z3.FreshConst(z3.IntSort(), x) for x in 'ijq']
        n = data.shape[0]
        en = ptr.extra.get('enum')
        same = en is not None and ptr.extra.get('role') == 'indptr' and data.extra.get('enum') is en and ind.extra.get('enum') is en and ind.extra.get('role') == 'col' and data.extra.get('role') == 'data'
        e.oblige(s, 'data, columns and row pointers are those of one csr matrix', z3.BoolVal(bool(same)))
        e.oblige(s, 'one pointer per row and one more', z3.And(ptr.shape[0] == m.a.shape[0] + 1, ind.shape[0] == n))
        if same:
            e.oblige(s, 'every written entry is a stored cell with its value', z3.ForAll([q], z3.Implies(rng(q, n), z3.And(m.a.stored(en.row(q), ind.get(q)), data.get(q) == m.a.get(en.row(q), ind.get(q)))), patterns=[en.row(q)]))
            e.oblige(s, 'every stored cell is written', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.a.shape[0]), rng(j, m.a.shape[1]), m.a.stored(i, j)),
                     z3.And(ptr.get(i) <= en.eid(i, j), en.eid(i, j) < ptr.get(i + 1), ind.get(en.eid(i, j)) == j))))
        e.oblige(s, 'values keep their kind', z3.BoolVal(data.dt == m.a.dt))
        D.inc(s, 'array')
        return NONEV
    eng.ext['numpy.savez'] = eng.ext['numpy.savez_compressed'] = savez
    def npsave(e, s, a, k):
        if len(a) != 2 or k: raise Unsupported('np.save arguments')
        e.oblige(s, 'an array is written for dense matrices', z3.BoolVal(m.dense))
        e.oblige(s, 'the array goes to the .npy file', eqv(e.val(s, a[0]), D.npy))
        v = e.snap(s, a[1])
        i, j = z3.Ints('ni nj')
        e.oblige(s, 'all cells are written', z3.And(v.shape[0] == m.a.shape[0], v.shape[1] == m.a.shape[1],
                 z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.a.shape[0]), rng(j, m.a.shape[1])), v.get(i, j) == m.a.get(i, j)))) if isinstance(v, ArrV) and v.kind == 'nd' and len(v.shape) == 2 else z3.BoolVal(False))
        e.oblige(s, 'values keep their kind', z3.BoolVal(v.dt == m.a.dt))
        D.inc(s, 'array')
        return NONEV
    eng.ext['numpy.save'] = npsave
    bn = lambda f: eng.uf('os.path.basename/1', StrSort, StrSort)(f.t)
    def zipw(e, s, a, k):
        f, as_ = e.val(s, a[0]), e.val(s, a[1] if len(a) > 1 else k['arcname']) if len(a) > 1 or 'arcname' in k else None
        e.oblige(s, 'packed under its own name, without directories', as_.t == bn(f) if as_ is not None else z3.BoolVal(False))
        e.oblige(s, 'packed after both files are written', z3.And(D.get(s, 'meta') == 1, D.get(s, 'array') == 1))
        out = []
        for s1, b in e.split(s, eqv(f, D.metaf)):
            if not b: e.oblige(s1, 'the two files are packed', eqv(f, D.arrf))
            D.inc(s1, 'packed_meta' if b else 'packed_array')
            out.append((s1, NONEV))
        return out
    def zipopen(e, s, a, k):
        b = dict(zip(('file', 'mode'), a)); b.update(k)
        if set(b) - {'file', 'mode', 'allowZip64', 'compression'}: raise Unsupported('zip option')
        e.oblige(s, 'the archive has the base name with .pac', eqv(e.val(s, b['file']), D.pac))
        e.oblige(s, 'the archive is written anew', z3.BoolVal('mode' in b and iolib.conc(b['mode']) == 'w'))
        D.inc(s, 'zip')
        return e.alloc(s, ObjV('ghost:Zip', {'write': ConcV('pyfn', f=zipw)}))
    eng.ext['zipfile.ZipFile'] = zipopen
    kw = {'pack': P(BOOL, z3.BoolVal(pack == 'pack')), 'verbose': T.sym(BOOL, 'verbose')}
    if encgiven == 'given': kw['encoding'] = enc
    for s, r in T.normal(T.call(TTM + '.save', [m.ref, fn], kw)):
        one = lambda *c: z3.And(*[D.get(s, x) == 1 for x in c])
        T.post(s, 'labels and cells are written, once', one('meta', 'array'))
        if pack == 'pack':
            T.post(s, 'both files are packed into one', one('zip', 'packed_meta', 'packed_array'))
            T.post(s, 'both files are removed then', one('removed_meta', 'removed_array'))
        else: T.post(s, 'the two files stay', z3.And(*[D.get(s, c) == 0 for c in ('zip', 'removed_meta', 'removed_array')]))
        T.unchanged(s, 'the matrix is unchanged', m.arr)
        f = T.eng.val(T.st, m.ref).fields
        T.unchanged(s, 'the labels are unchanged', f['row_items'], f['col_items'])


@contract('P16', TTM + '.load', params=[(f, p, x) for f in ('csr', 'nd', 'sq') for p, x in (('pack', '.pac'), ('pack', ''), ('files', ''))])
def _(T, param):
    form, pack, ext = param
    eng = T.eng
    m = matrix(T, form)
    fn, base = names(T, ext)
    enc = T.sym(STR, 'encoding')
    D = Disk(T, fn, base, enc, form, m.dense)
    D.saving = False
    distinct_names(T, D)
    there = lambda s: D.get(s, 'extracted') == 1 if pack == 'pack' else z3.BoolVal(True)
    def opened(e, s, f, md, n):
        only(D.metaf, enc, ('r', 'rt'))(e, s, f, md, n)
        e.oblige(s, 'read after unpacking', there(s))
    F = Files(T, opened)
    T.eng.ext['os.path.exists'] = T.eng.ext['os.path.isfile'] = lambda e, s, a, k: exists_(e, s, a)
    def exists_(e, s, a):
        f = e.val(s, a[0])
        e.oblige(s, 'looked for after unpacking', there(s))
        e.oblige(s, 'one of the two array files is looked for', z3.Or(eqv(f, D.npz), eqv(f, D.npy)))
        return P(BOOL, eqv(f, D.arrf))
    f0 = eng.val(T.st, m.ref).fields
    eng.ext['json.load'] = lambda e, s, a, k: jload(e, s)
    def jload(e, s):
        D.inc(s, 'meta')
        d = {'row_items': e.box(s, m.rows), 'col_items': e.box(s, m.cols), '_item2rowid': NONEV, '_item2colid': NONEV}
        return e.alloc(s, CDictV(d))
    def npload(e, s, a, k):
        if len(a) != 1 or k: raise Unsupported('np.load options')
        e.oblige(s, 'the array file written is read', z3.And(eqv(e.val(s, a[0]), D.arrf), there(s)))
        D.inc(s, 'read_array')
        if m.dense: return e.alloc(s, m.a)
        d = {w: e.attrs[('sp', w)](e, s, m.arr) for w in ('data', 'indices', 'indptr')}
        from pydv.nplib import nd
        d['shape'] = e.alloc(s, nd([2], lambda i: z3.If(i == 0, m.a.shape[0], m.a.shape[1]), INT))
        return e.alloc(s, CDictV(d))
    eng.ext['numpy.load'] = npload
    dirn = lambda f: eng.uf('os.path.dirname/1', StrSort, StrSort)(f.t)
    def extract(e, s, a, k):
        e.oblige(s, 'unpacked beside the archive', e.val(s, a[0]).t == dirn(D.pac))
        D.inc(s, 'extracted')
        return NONEV
    def zipopen(e, s, a, k):
        e.oblige(s, 'the archive has the base name with .pac', eqv(e.val(s, a[0]), D.pac))
        if len(a) > 1 or k: raise Unsupported('zip option')
        return e.alloc(s, ObjV('ghost:Zip', {'extractall': ConcV('pyfn', f=extract)}))
    eng.ext['zipfile.ZipFile'] = zipopen
    outs = T.call(TTM + '.load', [fn], {'encoding': enc, 'pack': P(BOOL, z3.BoolVal(pack == 'pack'))})
    for s, r in T.normal(outs, raises={'ValueError': z3.Not(eqv(m.rows, m.cols))} if m.dense else {}):
        d = result(T, s, r)
        wf(T, s, d)
        T.post(s, 'the row labels are those saved, in order', eqv(d.rows, m.rows))
        T.post(s, 'the column labels are those saved, in order', eqv(d.cols, m.cols))
        i, j = z3.Ints('ri rj')
        T.post(s, 'every cell is the one saved', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.rows.n), rng(j, m.cols.n)), d.a.get(i, j) == m.a.get(i, j))))
        T.post(s, 'same kind of storage', z3.BoolVal(d.a.kind == m.a.kind))
        T.post(s, 'values keep their kind', z3.BoolVal(d.a.dt == m.a.dt))
        if d.a.kind == 'sp' and not m.dense: T.post(s, 'the stored entries are those saved', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.rows.n), rng(j, m.cols.n)), d.a.stored(i, j) == m.a.stored(i, j))))
        k = 1 if pack == 'pack' else 0
        T.post(s, 'the unpacked files are removed again, other files never', z3.And(D.get(s, 'removed_meta') == k, D.get(s, 'removed_array') == k))


# data frames: pandas is assumed to keep a frame's values, row labels and column labels; rename replaces the labels it is given
DF = 'ghost:Frame'


def new_frame(e, s, arr, index, columns):
    def rename(e, s, a, k, get):
        if a or set(k) - {'index', 'columns', 'inplace', 'copy'}: raise Unsupported('rename arguments')
        inplace = 'inplace' in k and iolib.conc(k['inplace'])
        me = get(s)
        o = e.val(s, me)
        new = {}
        for w in ('index', 'columns'):
            new[w] = o.fields[w]
            if w not in k or isinstance(k[w], NoneV): continue
            old, d = e.snap(s, o.fields[w]), e.snap(s, k[w])
            if isinstance(d, CDictV): raise Unsupported('renaming with a written-out dictionary')
            e.oblige(s, 'every %s label is given its name' % w, foralli(old.n, lambda i: d.dom(old.get(i))))
            new[w] = e.alloc(s, ListV(old.n, lambda i, d=d, old=old: d.val(old.get(i)), d.v))
        if inplace:
            for w in new: e.set_field(s, me, w, new[w])
            return NONEV
        return new_frame(e, s, o.fields['values'], new['index'], new['columns'])
    box = []
    get = lambda s: box[0]
    r = e.alloc(s, ObjV(DF, {'values': arr, 'index': index, 'columns': columns, 'rename': ConcV('pyfn', f=lambda e, s, a, k: rename(e, s, a, k, get))}))
    box.append(r)
    return r


def use_frames(T):
    eng = T.eng
    def df(e, s, a, k):
        if len(a) != 1 or set(k) - {'index', 'columns'}: raise Unsupported('data frame arguments')
        v = e.val(s, a[0])
        if not (isinstance(v, ArrV) and v.kind == 'nd' and len(v.shape) == 2): raise Unsupported('data frame of %r' % (v,))
        lab = lambda w, n: k[w] if w in k and not isinstance(k[w], NoneV) else e.alloc(s, ListV(n, lambda i: P(INT, i), INT))
        for w, n in (('index', v.shape[0]), ('columns', v.shape[1])):
            if w in k and not isinstance(k[w], NoneV): e.oblige(s, 'one label per row and column', e.snap(s, k[w]).n == n)
        return new_frame(e, s, a[0], lab('index', v.shape[0]), lab('columns', v.shape[1]))
    eng.ext['pandas.DataFrame'] = df
    eng.methods[('list', 'tolist')] = lambda e, s, r, a, k: e.alloc(s, e.snap(s, r))


def frame_is(T, s, r, m, post):
    eng = T.eng
    v = eng.val(s, r)
    ok = isinstance(v, ObjV) and v.cls == DF
    post('the result is a data frame', z3.BoolVal(ok))
    if not ok: return
    x = eng.snap(s, v.fields['values'])
    rows, cols = eng.snap(s, v.fields['index']), eng.snap(s, v.fields['columns'])
    post('its rows have the row labels, in order', eqv(rows, m.rows) if rows.el == STR else m.rows.n == 0)
    post('its columns have the column labels, in order', eqv(cols, m.cols) if cols.el == STR else m.cols.n == 0)
    i, j = z3.Ints('fi fj')
    post('its values are the cells', z3.And(x.shape[0] == m.rows.n, x.shape[1] == m.cols.n,
         z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.rows.n), rng(j, m.cols.n)), x.get(i, j) == m.a.get(i, j)))))
    post('values keep their kind', z3.BoolVal(x.dt == m.a.dt))


@contract('P16', TTM + '.dataframe', params=ALLFORMS)
def _(T, form):
    m = matrix(T, form)
    use_frames(T)
    for s, r in T.normal(T.call(TTM + '.dataframe', [m.ref])):
        frame_is(T, s, r, m, lambda l, f: T.post(s, l, f))
        T.unchanged(s, 'the matrix is unchanged', m.arr)
        f = T.eng.val(T.st, m.ref).fields
        T.unchanged(s, 'the labels are unchanged', f['row_items'], f['col_items'])


@contract('P16', TTM + '.from_dataframe', params=[(w, sp) for w in ('nd', 'sq') for sp in ('default', 'sparse', 'dense')])
def _(T, param):
    form, sparse = param
    eng = T.eng
    m = matrix(T, form)
    use_frames(T)
    f = eng.val(T.st, m.ref).fields
    df = new_frame(eng, T.st, m.arr, f['row_items'], f['col_items'])
    outs = T.call(TTM + '.from_dataframe', [df], {} if sparse == 'default' else {'issparse': P(BOOL, z3.BoolVal(sparse == 'sparse'))})
    for s, r in T.normal(outs, raises={'ValueError': z3.Not(eqv(m.rows, m.cols))} if sparse == 'dense' else {}):
        back(T, s, r, m, 'sp' if sparse != 'dense' else 'nd')


def back(T, s, r, m, kind):
    d = result(T, s, r)
    wf(T, s, d)
    T.post(s, 'the row labels are those of the frame, in order', eqv(d.rows, m.rows))
    T.post(s, 'the column labels are those of the frame, in order', eqv(d.cols, m.cols))
    i, j = z3.Ints('bi bj')
    T.post(s, 'every cell is that of the frame', z3.ForAll([i, j], z3.Implies(z3.And(rng(i, m.rows.n), rng(j, m.cols.n)), d.a.get(i, j) == m.a.get(i, j))))
    T.post(s, 'stored as asked', z3.BoolVal(d.a.kind == kind))
    T.post(s, 'values keep their kind', z3.BoolVal(d.a.dt == m.a.dt))


@contract('P16', TTM + '.to_csv', params=[(f, o) for f in ('csr', 'nd') for o in ('defaults', 'options')])
def _(T, param):
    form, opts = param
    eng = T.eng
    m = matrix(T, form)
    fn, sep, enc = T.sym(STR, 'filename'), T.sym(STR, 'sep'), T.sym(STR, 'encoding')
    df = T.obj(DF)
    g = T.obj('ghost:Ghost', runs=I(0))
    # the data frame is that of this matrix (contract of dataframe)
    def dataframe(e, s, a, k):
        e.oblige(s, 'the data frame of this matrix', z3.BoolVal(same_ref(a[0], m.ref)))
        return [(s, df)]
    eng.callees[TTM + '.dataframe'] = dataframe
    def to_csv(e, s, a, k):
        b = dict(zip(('filename', 'sep'), a)); b.update(k)
        if set(b) - {'filename', 'sep', 'index', 'header', 'encoding'}: raise Unsupported('to_csv option')
        e.oblige(s, 'written to the file named', eqv(e.val(s, b['filename']), fn))
        e.oblige(s, 'with the separator asked for', eqv(e.val(s, b['sep']), sep if opts == 'options' else S('\t')) if 'sep' in b else z3.BoolVal(False))
        e.oblige(s, 'in the encoding asked for', eqv(e.val(s, b['encoding']), enc if opts == 'options' else S('utf-8')) if 'encoding' in b else z3.BoolVal(opts != 'options'))
        for w in ('index', 'header'): e.oblige(s, 'with row names and column names', e.truth(s, b[w]) if w in b else z3.BoolVal(True))
        setg(e, s, g, runs=getg(e, s, g, 'runs') + 1)
        return NONEV
    eng.methods[(DF, 'to_csv')] = lambda e, s, r, a, k: to_csv(e, s, a, k)
    eng.set_field(T.st, df, 'to_csv', ConcV('pyfn', f=to_csv))
    kw = {} if opts == 'defaults' else {'sep': sep, 'encoding': enc, 'index': P(BOOL, z3.BoolVal(True)), 'header': P(BOOL, z3.BoolVal(True))}
    for s, r in T.normal(T.call(TTM + '.to_csv', [m.ref, fn], kw)):
        T.post(s, 'one file is written', getg(eng, s, g, 'runs') == 1)
        T.unchanged(s, 'the matrix is unchanged', m.arr)


@contract('P16', TTM + '.read_csv', params=[(f, sp) for f in ('nd', 'sq') for sp in ('default', 'sparse', 'dense')])
def _(T, param):
    form, sparse = param
    eng = T.eng
    m = matrix(T, form)
    use_frames(T)
    fn, sep, enc = T.sym(STR, 'filename'), T.sym(STR, 'sep'), T.sym(STR, 'encoding')
    f = eng.val(T.st, m.ref).fields
    df = new_frame(eng, T.st, m.arr, f['row_items'], f['col_items'])
    def read(e, s, a, k):
        b = dict(zip(('filename',), a)); b.update(k)
        if set(b) - {'filename', 'sep', 'index_col', 'header', 'encoding'}: raise Unsupported('read_csv option')
        e.oblige(s, 'read from the file named', eqv(e.val(s, b['filename']), fn))
        e.oblige(s, 'with the separator asked for', eqv(e.val(s, b['sep']), sep) if 'sep' in b else z3.BoolVal(False))
        e.oblige(s, 'in the encoding asked for', eqv(e.val(s, b['encoding']), enc) if 'encoding' in b else z3.BoolVal(False))
        e.oblige(s, 'the row labels are read from the column asked for', eqv(e.val(s, b['index_col']), I(0)) if 'index_col' in b else z3.BoolVal(False))
        e.oblige(s, 'the first line holds the column labels', eqv(e.val(s, b['header']), S('infer')) if 'header' in b else z3.BoolVal(True))
        return df
    eng.ext['pandas.read_csv'] = read
    kw = {'sep': sep, 'encoding': enc, 'index_col': I(0)}
    if sparse != 'default': kw['issparse'] = P(BOOL, z3.BoolVal(sparse == 'sparse'))
    for s, r in T.normal(T.call(TTM + '.read_csv', [fn], kw), raises={'ValueError': z3.Not(eqv(m.rows, m.cols))} if sparse != 'sparse' else {}):
        back(T, s, r, m, 'sp' if sparse == 'sparse' else 'nd')
