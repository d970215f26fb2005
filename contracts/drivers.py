"""Contracts of the methods that drive a corpus run: which files are read, what is handed to the workers, what a
retrieval starts from and what is made of its result (P07-P10, P28)."""
import z3
from pydv.task import *
from pydv import iolib
from contracts.corpus import TM, TT, HD, CF, VOC, TH, TYPE, IF, vocab0, ghost, getg, setg, rng, same_ref

CH = TT + ':ColFreqHandler'
UT = 'nephosem.utils'
BH = HD + ':BaseHandler'
EXC = ('IOError', 'FileNotFoundError')


# ------------------------------------------------------------------------------------------- which files are read
@contract(['P07', 'P10'], BH + '.prepare_fnames', params=('a list', 'a file of names', 'the corpus directory', 'a path to the file of names, by keyword'))
def _(T, how):
    eng = T.eng
    cp, enc = T.sym(STR, 'corpus-path'), T.sym(STR, 'encoding')
    h = T.obj(IF, corpus_path=cp, encoding=enc, input_encoding=enc)
    fromfile, fromdir = T.new(TList(STR), 'recorded'), T.new(TList(STR), 'in-directory')
    fn = T.sym(STR, 'fnames')
    def rf(e, s, a, k):
        names = ('filename', 'dirname', 'encoding')
        b = dict(zip(names, a)); b.update(k)
        e.oblige(s, 'the named file is read', eqv(e.val(s, b['filename']), fn))
        e.oblige(s, 'names are relative to the corpus', eqv(e.val(s, b['dirname']), cp) if 'dirname' in b else z3.BoolVal(False))
        e.oblige(s, 'the file is read with the configured encoding', eqv(e.val(s, b['encoding']), enc) if 'encoding' in b else z3.BoolVal(False))
        return [(s, fromfile)]
    def rc(e, s, a, k):
        x = a[0] if a else k.get('corpus_path')
        e.oblige(s, 'the corpus directory is listed', eqv(e.val(s, x), cp))
        return [(s, fromdir)]
    for m in (UT, HD):
        eng.callees[m + ':read_fnames'], eng.callees[m + ':read_fnames_of_corpus'] = rf, rc
    given = T.new(TList(STR), 'names')
    args, kw, want = {'a list': ([given], {}, given), 'a file of names': ([fn], {}, fromfile), 'the corpus directory': ([], {}, fromdir),
                      'a path to the file of names, by keyword': ([], {'fnames': fn}, fromfile)}[how]
    w = T.snap(want)
    for s, r in T.normal(T.call(BH + '.prepare_fnames', [h] + args, kw)):
        v = T.snap(r, s)
        T.post(s, 'all files, in order', eqv(v, w))
        T.unchanged(s, 'a given list is unchanged', given)


@contract('P07', UT + ':read_fnames')
def _(T):
    eng = T.eng
    fn, dn, enc = T.sym(STR, 'filename'), T.sym(STR, 'dirname'), T.sym(STR, 'encoding')
    ext = eng.norm(T.st, eng.ext['os.path.splitext'](eng, T.st, [fn], {}))[0][1].items[1].t
    path = T.sym(STR, 'path').t
    T.pre(path == z3.If(ext == S('.fnames').t, fn.t, eng.concat([fn.t, '.fnames'])))
    n, line = iolib.file_lines(eng, path, enc.t)
    eng.assume(T.st, n >= 0)
    strip = lambda j: T.strcall(P(STR, line(j)), 'strip')
    i = z3.FreshConst(z3.IntSort(), 'i')
    named = z3.Not(z3.Or(strip(i).t == S('').t, T.strcall(strip(i), 'startswith', S('#')).t))
    full = z3.If(eng.uf('str_contains', StrSort, StrSort, z3.BoolSort())(strip(i).t, S('/').t), strip(i).t, eng.concat([dn.t, '/', strip(i).t]))
    isname, name = lambda j: z3.substitute(named, (i, j.t)), lambda j: z3.substitute(full, (i, j.t))
    turn = eng.uf('turn', STR.sort, z3.IntSort())      # for the order: when the recorded names differ, each tells its line
    T.pre(z3.ForAll([i], z3.Implies(named, turn(full) == i), patterns=[line(i)]))
    for s, r in T.normal(T.call(UT + ':read_fnames', [fn, dn, enc]), raises={'IOError': z3.BoolVal(True), 'OSError': z3.BoolVal(True)}):
        v = T.snap(r, s)
        T.post(s, 'every recorded name is listed', forall([INT], lambda j: z3.Implies(z3.And(rng(j.t, n), isname(j)), exists([INT], lambda k: z3.And(rng(k.t, v.n), v.get(k.t).t == name(j))))))
        T.post(s, 'nothing else is listed', forall([INT], lambda k: z3.Implies(rng(k.t, v.n), exists([INT], lambda j: z3.And(rng(j.t, n), isname(j), v.get(k.t).t == name(j))))))
        T.post(s, 'in the order of the file, none twice', forall([INT, INT], lambda k, k2: z3.Implies(z3.And(0 <= k.t, k.t < k2.t, k2.t < v.n), turn(v.get(k.t).t) < turn(v.get(k2.t).t))))


@contract('P07', UT + ':read_fnames_of_corpus')
def _(T):
    eng = T.eng
    DIR = TTup(STR, TList(STR), TList(STR))
    cp = T.sym(STR, 'corpus-path')
    walk = T.sym(TList(DIR), 'walk')
    eng.ext['os.walk'] = lambda e, s, a, k: (e.oblige(s, 'the corpus directory is searched', eqv(e.val(s, a[0]), cp)), e.alloc(s, walk))[1]
    eng.ext['builtins.sorted'] = lambda e, s, a, k: (e.oblige(s, 'all of it is searched', eqv(e.snap(s, a[0]), walk)), e.alloc(s, walk))[1]     # the order of the directories does not matter
    join = lambda d, k: eng.norm(T.st, eng.ext['os.path.join'](eng, T.st, [walk.get(d).items[0], walk.get(d).items[2].get(k)], {}))[0][1].t
    turn = eng.uf('turn', STR.sort, z3.IntSort())
    inside = lambda d, k: z3.And(rng(d, walk.n), rng(k, walk.get(d).items[2].n))
    d, k = z3.Ints('d!w k!w')
    td, tk = eng.uf('dir_of', STR.sort, z3.IntSort()), eng.uf('pos_of', STR.sort, z3.IntSort())
    T.pre(z3.ForAll([d, k], z3.Implies(inside(d, k), z3.And(td(join(d, k)) == d, tk(join(d, k)) == k)), patterns=[join(d, k)]))
    for s, r in T.normal(T.call(UT + ':read_fnames_of_corpus', [cp])):
        v = T.snap(r, s)
        offs = [f[0] for f in getattr(eng, 'flats', {}).values() if len(f) == 2]
        at = lambda d, k: z3.And(rng(offs[0](d) + k, v.n), v.get(offs[0](d) + k).t == join(d, k))
        T.post(s, 'every file of every directory is listed', forall([INT, INT], lambda d, k: z3.Implies(inside(d.t, k.t), at(d.t, k.t) if offs else exists([INT], lambda i: z3.And(rng(i.t, v.n), v.get(i.t).t == join(d.t, k.t))))))
        T.post(s, 'nothing else is listed', forall([INT], lambda i: z3.Implies(rng(i.t, v.n), exists([INT, INT], lambda d, k: z3.And(inside(d.t, k.t), v.get(i.t).t == join(d.t, k.t))))))
        T.post(s, 'no file is listed twice', forall([INT, INT], lambda i, j: z3.Implies(z3.And(0 <= i.t, i.t < j.t, j.t < v.n), v.get(i.t).t != v.get(j.t).t)))


# ------------------------------------------------------------------------------------------- what the workers are given
@contract(['P08', 'P10'], CH + '._do_process_job', params=('columns given', 'columns open'))
def _(T, mode):
    eng = T.eng
    rows, rd, _ = vocab0(T, 'rows')
    cols, cd, _ = vocab0(T, 'cols')
    chunk, ch, _ = vocab0(T, 'chunk')
    eng.callees[CH + '.nocolvocab'] = lambda e, s, a, k: [(s, B(mode == 'columns open'))]
    fn, d = T.sym(STR, 'fname'), T.new(TDict(STR, INT), 'mtx_dict')
    g = T.obj('ghost:Ghost', calls=I(0))
    h = T.obj(CH, row_vocab=rows, col_vocab=cols, chunk_col_vocab=chunk)
    def uof(e, s, a, k):
        b = dict(zip(('self', 'filename', 'data'), a)); b.update(k)
        e.oblige(s, 'the file of the job is processed', eqv(e.val(s, b['filename']), fn))
        t = e.val(s, b['data'])
        it = t.items if isinstance(t, (TupV, ListV)) and t.items is not None and len(t.items) == 3 else None
        e.oblige(s, 'the counts go into the table of the worker', z3.BoolVal(it is not None and same_ref(it[0], d)))
        e.oblige(s, 'the targets are the row vocabulary', z3.BoolVal(it is not None and same_ref(it[1], rows)))
        e.oblige(s, 'the context words are the column vocabulary, or collected by the worker when there is none', z3.BoolVal(it is not None and same_ref(it[2], cols if mode == 'columns given' else chunk)))
        setg(e, s, g, calls=getg(e, s, g, 'calls') + 1)
        return [(s, NONEV)]
    for c in (CH, BH): eng.callees[c + '.update_one_file'] = uof
    for s, r in T.normal(T.call(CH + '._do_process_job', [h, fn], {'mtx_dict': d})):
        T.post(s, 'the file is processed once', getg(eng, s, g, 'calls') == 1)


@contract(['P09', 'P10'], TH + '._do_process_job')
def _(T):
    eng = T.eng
    fn, toks = T.sym(STR, 'fname'), T.new(TDict(STR, TU('TypeNode')), 'type2toks')
    g = T.obj('ghost:Ghost', calls=I(0))
    h = T.obj(TH, type2toks=toks)
    def uof(e, s, a, k):
        b = dict(zip(('self', 'filename', 'data'), a)); b.update(k)
        e.oblige(s, 'the file of the job is processed', eqv(e.val(s, b['filename']), fn))
        e.oblige(s, 'the tokens go to the records of the worker', z3.BoolVal(same_ref(b['data'], toks)))
        setg(e, s, g, calls=getg(e, s, g, 'calls') + 1)
        return [(s, NONEV)]
    for c in (TH, BH): eng.callees[c + '.update_one_file'] = uof
    for s, r in T.normal(T.call(TH + '._do_process_job', [h, fn])):
        T.post(s, 'the file is processed once', getg(eng, s, g, 'calls') == 1)


@contract(['P08', 'P09', 'P10'], BH + '.update_one_file', params=('ColFreqHandler', 'TokenHandler'), label='update_one_file (as inherited)')
def _(T, cls):
    eng = T.eng
    fn, d = T.sym(STR, 'fname'), T.new(TDict(STR, INT), 'data')
    g = T.obj('ghost:Ghost', calls=I(0))
    h = T.obj(TT + ':' + cls)
    def uof(e, s, a, k):
        b = dict(zip(('self', 'filename', 'data'), a)); b.update(k)
        e.oblige(s, 'the same file is processed into the same data', z3.And(eqv(e.val(s, b['filename']), fn), z3.BoolVal(same_ref(b['data'], d) and same_ref(b['self'], h))))
        setg(e, s, g, calls=getg(e, s, g, 'calls') + 1)
        return [(s, NONEV)]
    eng.callees[BH + '.update_one_file'] = uof
    for s, r in T.normal(eng.call_method(T.st.fork(), h, 'update_one_file', [fn, d], {})):
        T.post(s, 'the file is processed once', getg(eng, s, g, 'calls') == 1)


def use_files(T, h, given, files):
    """prepare_fnames, as its contract has it"""
    def prep(e, s, a, k):
        x = a[1] if len(a) > 1 else k.get('fnames', NONEV)
        e.oblige(s, 'the files are those asked for', z3.BoolVal(same_ref(a[0], h)) if given is None else z3.And(z3.BoolVal(same_ref(a[0], h)), eqv(e.val(s, x), given)))
        return [(s, files)]
    for c in (BH, HD + ':Paralleler'): T.eng.callees[c + '.prepare_fnames'] = prep


def use_process(T, h, files, result, before=None):
    g = T.obj('ghost:Ghost', runs=I(0))
    def process(e, s, a, k):
        e.oblige(s, 'all files are processed', z3.BoolVal(len(a) > 1 and same_ref(a[1], files)) if len(a) > 1 else z3.BoolVal(same_ref(k.get('fnames'), files)))
        e.oblige(s, 'it is this handler that processes them', z3.BoolVal(same_ref(a[0], h)))
        if before: before(e, s)
        setg(e, s, g, runs=getg(e, s, g, 'runs') + 1)
        return [(s, result)]
    T.eng.callees[HD + ':Paralleler.process'] = process
    return g


@contract(['P07', 'P10'], IF + '.build_item_freq')
def _(T):
    eng = T.eng
    h = T.obj(IF)
    fn, files = T.sym(STR, 'fnames'), T.new(TList(STR), 'files')
    use_files(T, h, fn, files)
    res = T.new(TDict(STR, INT), 'counts')
    rv = T.snap(res)
    g = use_process(T, h, files, res)
    for s, r in T.normal(T.call(IF + '.build_item_freq', [h, fn])):
        v = eng.val(s, r)
        T.post(s, 'the files are processed once', getg(eng, s, g, 'runs') == 1)
        T.post(s, 'the result is a vocabulary', z3.BoolVal(isinstance(v, ObjV) and v.cls == VOC))
        d = T.snap(v.fields['freq_dict'], s)
        T.post(s, 'the vocabulary holds the merged counts', forall([STR], lambda w: z3.And(d.dom(w) == rv.dom(w), z3.Implies(rv.dom(w), d.val(w).t == rv.val(w).t))))


@contract(['P08', 'P10'], CH + '.build_col_freq', params=[(r, c) for r in ('rows given', 'rows of the handler') for c in ('columns given', 'columns of the handler')])
def _(T, how):
    eng = T.eng
    own_rows, ord_, _ = vocab0(T, 'own-rows')
    own_cols, ocd, _ = vocab0(T, 'own-cols')
    rows, rd, _ = vocab0(T, 'rows')
    cols, cd, _ = vocab0(T, 'cols')
    h = T.obj(CH, row_vocab=own_rows, col_vocab=own_cols)
    fn, files = T.sym(STR, 'fnames'), T.new(TList(STR), 'files')
    use_files(T, h, fn, files)
    res = T.sym(TU('Matrix'), 'merged')
    some = lambda d: exists([STR], lambda w: d.dom(w))
    kw = {}
    if how[0] == 'rows given': kw['row_vocab'] = rows
    if how[1] == 'columns given': kw['col_vocab'] = cols
    def before(e, s):
        f = e.val(s, h).fields
        for what, given, own, field, d in (('targets', how[0] == 'rows given', (own_rows, rows), 'row_vocab', rd), ('context words', how[1] == 'columns given', (own_cols, cols), 'col_vocab', cd)):
            if not given: e.oblige(s, 'the %s are those of the handler' % what, z3.BoolVal(same_ref(f[field], own[0])))
            else:       # an empty vocabulary counts as none given
                e.oblige(s, 'the %s given are used' % what, z3.And(z3.Implies(some(d), z3.BoolVal(same_ref(f[field], own[1]))), z3.BoolVal(same_ref(f[field], own[0]) or same_ref(f[field], own[1]))))
    g = use_process(T, h, files, res, before)
    for s, r in T.normal(T.call(CH + '.build_col_freq', [h, fn], kw)):
        v = eng.val(s, r)
        rowsd = z3.Or(some(ord_), some(rd)) if how[0] == 'rows given' else some(ord_)
        none = isinstance(v, NoneV)
        T.post(s, 'nothing is counted only when there is no target', z3.Implies(z3.BoolVal(none), z3.Not(rowsd)))
        if not none:
            T.post(s, 'the result is the merged matrix', eqv(v, res))
            T.post(s, 'the files are processed once', getg(eng, s, g, 'runs') == 1)


@contract(['P09', 'P10', 'P28'], TH + '.retrieve_tokens')
def _(T):
    eng = T.eng
    NODE, MTX = TU('TypeNode'), TU('Matrix')
    tf, cfm = T.sym(STR, 'type_format'), T.sym(STR, 'colloc_format')
    old = T.new(TDict(STR, NODE), 'type2toks')
    od = T.snap(old)
    h = T.obj(TH, type2toks=old, formatter=T.obj(CF, type_format=tf, colloc_format=cfm))
    fn, files = T.sym(STR, 'fnames'), T.new(TList(STR), 'files')
    use_files(T, h, fn, files)
    FRESH = TObj(TYPE, type_str=STR, type_fmt=STR, tokens=TList(STR))
    def init(e, s, a, k):
        b = dict(zip(('self', 'type_str', 'type_fmt'), a)); b.update(k)
        ok = set(b) <= {'self', 'type_str', 'type_fmt'}
        e.oblige(s, 'records start without tokens', z3.BoolVal(ok))
        s.heap[a[0].cell] = ObjV(TYPE, {'type_str': e.val(s, b['type_str']), 'type_fmt': e.val(s, b['type_fmt'])})
        return [(s, NONEV)]
    eng.callees[TYPE + '.__init__'] = init
    res = T.new(TDict(STR, NODE), 'collected')
    rs = T.snap(res)
    def before(e, s):
        d = e.snap(s, e.val(s, h).fields['type2toks'])
        if isinstance(d, CDictV): d = cdict_to_dict(d, TDict(STR, FRESH)) if d.d else d
        if not isinstance(d, DictV):
            e.oblige(s, 'there is a record for every query', forall([STR], lambda w: z3.Not(od.dom(w)))); return
        e.oblige(s, 'there is a record for every query', forall([STR], lambda w: d.dom(w) == od.dom(w)))
        x = lambda w: d.val(w)
        fresh = isinstance(x(P(STR, z3.Const('w', STR.sort))), ObjV)
        e.oblige(s, 'the records are new ones', z3.BoolVal(fresh))
        if fresh: e.oblige(s, 'each record is of its own query', forall([STR], lambda w: z3.Implies(od.dom(w), z3.And(x(w).fields['type_str'].t == w.t, x(w).fields['type_fmt'].t == tf.t))))
    g = use_process(T, h, files, res, before)
    m = T.sym(MTX, 'matrix')
    def tn(e, s, a, k):
        b = dict(zip(('type2toks', 'colloc_fmt'), a)); b.update(k)
        e.oblige(s, 'the matrix is made of what was collected', z3.BoolVal(same_ref(b['type2toks'], res)))
        e.oblige(s, 'the context words are written in the configured format', eqv(e.val(s, b['colloc_fmt']), cfm) if 'colloc_fmt' in b else z3.BoolVal(False))
        e.oblige(s, 'the matrix is made after the run', getg(e, s, g, 'runs') == 1)
        return [(s, m)]
    eng.callees['nephosem.specutils.mxutils:transform_nodes_to_matrix'] = tn
    for s, r in T.normal(T.call(TH + '.retrieve_tokens', [h, fn])):
        T.post(s, 'the result is the matrix of the tokens', eqv(eng.val(s, r), m))
        T.post(s, 'the collected tokens are kept', z3.BoolVal(same_ref(eng.val(s, h).fields['type2toks'], res)))
        T.post(s, 'the files are processed once', getg(eng, s, g, 'runs') == 1)


# ------------------------------------------------------------------------------------------- token-context matrix (P28)
ITEM, TOKEN, MX = TM + ':ItemNode', TM + ':TokenNode', 'nephosem.specutils.mxutils'


@contract('P28', MX + ':transform_nodes_to_matrix')
def _(T):
    eng = T.eng
    WID, TID, MTX = TU('WordId'), TU('TokenId'), TU('SparseMatrix')
    W = TObj(ITEM, id=WID)
    TOK = TObj(TOKEN, id=TID, lcollocs=TList(W), rcollocs=TList(W))
    TYP = TObj(TYPE, tokens=TList(TOK))
    nodes = T.new(TDict(STR, TYP), 'type2toks')
    d = T.snap(nodes)
    fmt = T.sym(STR, 'colloc_fmt')
    coll, tstr = eng.uf('collocate', WID.sort, STR.sort, STR.sort), eng.uf('token_string', TID.sort, STR.sort)
    def to_colloc(e, s, a, k):
        f = e.val(s, a[1] if len(a) > 1 else k['colloc_fmt'])
        return [(s, P(STR, coll(e.val(s, e.val(s, a[0]).fields['id']).t, f.t)))]
    eng.callees[ITEM + '.to_colloc'] = to_colloc
    eng.callees[TOKEN + '.token'] = lambda e, s, a, k: [(s, P(STR, tstr(e.val(s, e.val(s, a[0]).fields['id']).t)))]
    # every token is listed once and has a string of its own (P09)
    own, at = eng.uf('type_of_token', STR.sort, STR.sort), eng.uf('place_of_token', STR.sort, z3.IntSort())
    u, k = z3.Const('u!t', STR.sort), z3.Int('k!t')
    toks = lambda u: d.val(P(STR, u)).fields['tokens']
    name = lambda u, k: tstr(toks(u).get(k).fields['id'].t)
    inside = lambda u, k: z3.And(d.dom(P(STR, u)), rng(k, toks(u).n))
    T.pre(z3.ForAll([u, k], z3.Implies(inside(u, k), z3.And(own(name(u, k)) == u, at(name(u, k)) == k)), patterns=[name(u, k)]))
    side = lambda u, k, f: toks(u).get(k).fields[f]
    word = lambda u, k, f, i: coll(side(u, k, f).get(i).fields['id'].t, fmt.t)
    occurs = lambda u, k, f, i, c: z3.And(rng(i, side(u, k, f).n), word(u, k, f, i) == c)
    mx = T.sym(MTX, 'matrix')
    seen = {}
    def build(e, s, a, kw):
        b = dict(zip(('dict_mtx', 'rowid2item', 'colid2item', 'verbose'), a)); b.update(kw)
        m, rows, cols = [e.snap(s, b[x]) for x in ('dict_mtx', 'rowid2item', 'colid2item')]
        if isinstance(m, CDictV):
            e.oblige(s, 'without tokens the matrix is empty', forall([STR, INT], lambda u, k: z3.Not(inside(u.t, k.t)))); return [(s, mx)]
        lst = lambda l, x: exists([INT], lambda j: z3.And(rng(j.t, l.n), l.get(j.t).t == x))
        e.oblige(s, 'there is a row for every token', forall([STR, INT], lambda u, k: z3.Implies(inside(u.t, k.t), m.dom(P(STR, name(u.t, k.t))))))
        e.oblige(s, 'every row is that of a token', forall([STR], lambda r: z3.Implies(m.dom(r), z3.And(inside(own(r.t), at(r.t)), name(own(r.t), at(r.t)) == r.t))))
        row = lambda u, k: m.val(P(STR, name(u, k)))
        for f in ('lcollocs', 'rcollocs'):
            e.oblige(s, 'every context word of a token has its cell', forall([STR, INT, INT], lambda u, k, i: z3.Implies(z3.And(inside(u.t, k.t), rng(i.t, side(u.t, k.t, f).n)), row(u.t, k.t).dom(P(STR, word(u.t, k.t, f, i.t))))))
        def true_pos(u, k, c):
            x = row(u, k).val(P(STR, c)).t
            l, r = side(u, k, 'lcollocs'), side(u, k, 'rcollocs')
            return z3.Or(z3.And(x < 0, occurs(u, k, 'lcollocs', x + l.n, c)), z3.And(x > 0, occurs(u, k, 'rcollocs', x - 1, c)))
        e.oblige(s, 'a cell holds the signed distance of an occurrence of the context word', forall([STR, INT, STR], lambda u, k, c: z3.Implies(z3.And(inside(u.t, k.t), row(u.t, k.t).dom(c)), true_pos(u.t, k.t, c.t))))
        e.oblige(s, 'the row labels are the tokens', z3.And(forall([STR], lambda r: z3.Implies(m.dom(r), lst(rows, r.t))), forall([INT], lambda j: z3.Implies(rng(j.t, rows.n), m.dom(rows.get(j.t))))))
        e.oblige(s, 'every context word is a column', forall([STR, INT, STR], lambda u, k, c: z3.Implies(z3.And(inside(u.t, k.t), row(u.t, k.t).dom(c)), lst(cols, c.t))))
        e.oblige(s, 'every column is a context word', forall([INT], lambda j: z3.Implies(rng(j.t, cols.n), exists([STR, INT, INT], lambda u, k, i: z3.And(inside(u.t, k.t), z3.Or(*[occurs(u.t, k.t, f, i.t, cols.get(j.t).t) for f in ('lcollocs', 'rcollocs')]))))))
        seen['rows'], seen['cols'] = b['rowid2item'], b['colid2item']
        return [(s, mx)]
    eng.callees[MX + ':transform_dict_to_spmatrix'] = build
    def init(e, s, a, kw):
        b = dict(zip(('self', 'matrix', 'row_items', 'col_items'), a)); b.update(kw)
        e.oblige(s, 'the matrix has the labels it was built with', z3.BoolVal('rows' in seen and same_ref(b['row_items'], seen['rows']) and same_ref(b['col_items'], seen['cols']) or 'rows' not in seen))
        e.oblige(s, 'the matrix is the one built', eqv(e.val(s, b['matrix']), mx))
        s.heap[a[0].cell] = ObjV('nephosem.core.matrix:TypeTokenMatrix', {'matrix': mx})
        return [(s, NONEV)]
    eng.callees['nephosem.core.matrix:TypeTokenMatrix.__init__'] = init
    for s, r in T.normal(T.call(MX + ':transform_nodes_to_matrix', [nodes, fmt])):
        v = eng.val(s, r)
        T.post(s, 'the result is the matrix built', z3.BoolVal(isinstance(v, ObjV) and v.cls.endswith(':TypeTokenMatrix')))
        T.unchanged(s, 'the tokens are unchanged', nodes)
