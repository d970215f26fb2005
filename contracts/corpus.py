"""Contracts of the corpus handlers: windows, frequency lists, co-occurrence counts, tokens (P07-P10)."""
import z3
from pydv.task import *
from pydv.lib import RE, MATCH
from pydv.loops import LoopInv
from pydv import iolib

TM = 'nephosem.core.terms'
TT = 'nephosem.models.typetoken'
HD = 'nephosem.core.handler'
CF = TM + ':CorpusFormatter'
WIN = TM + ':Window'
VOC = 'nephosem.core.vocab:Vocab'
ELEM = TTup(MATCH, INT)           # a window element: (match of the line, line number)
CELL = TOpt(ELEM)


def rng(i, n): return z3.And(0 <= i, i < n)


def tfun(eng): return eng.uf('type_of', MATCH.sort, STR.sort)
def cfun(eng): return eng.uf('colloc_of', MATCH.sort, STR.sort)


def some(eng, st, v, f):
    """f of a value that must not be None"""
    v = eng.val(st, v)
    if isinstance(v, NoneV): return [(st, Exc('AttributeError', 'None'))]
    if not isinstance(v, OptV): return [(st, f(st, v))]
    return [(s, Exc('AttributeError', 'None') if b else f(s, v.val)) for s, b in eng.split(st, v.isnone)]


def use_formatter(T):
    """callee contracts of the formatter (proved in P05): type and collocate string are functions of the match"""
    def strof(f):
        def h(eng, st, args, kw):
            return some(eng, st, args[1], lambda s, m: P(STR, f(eng)(m.t)))
        return h
    T.eng.callees[CF + '.get_type'] = strof(tfun)
    T.eng.callees[CF + '.get_colloc'] = strof(cfun)


def default_int(): return ConcV('type', name='int')


def counts(T, name):
    """a nested defaultdict of counts"""
    inner = TDict(STR, INT, ConcV('pyfn', f=lambda e, s, a, k: I(0)))
    outer = TDict(STR, inner, ConcV('pyfn', f=lambda e, s, a, k: e.alloc(s, CDictV({}, inner.default))))
    r = T.new(outer, name)
    return r, T.snap(r)


def cnt(d, t, c):
    """the count stored for (t, c), 0 when there is none"""
    return z3.If(z3.And(d.dom(t), d.val(t).dom(c)), d.val(t).val(c).t, 0)


def window(T, name='w'):
    """an arbitrary window: left and right hold as many cells as the spans say"""
    L, R = T.sym(INT, name + '.L'), T.sym(INT, name + '.R')
    T.pre(z3.And(L.t >= 0, R.t >= 0))
    left, right = T.new(TList(CELL), name + '.left'), T.new(TList(CELL), name + '.right')
    lv, rv = T.snap(left), T.snap(right)
    T.pre(z3.And(lv.n == L.t, rv.n == R.t))
    for v, m in ((left, L), (right, R)): T.eng.maxlen[v.cell] = m.t
    node = T.sym(CELL, name + '.node')
    ref = T.obj(WIN, left_span=L, right_span=R, left=left, right=right, node=node)
    return ref, L.t, R.t, T.snap(left), T.snap(right), node


def vocab0(T, name):
    r = T.obj(VOC, freq_dict=T.new(TDict(STR, INT), name), raw_vocab=NONEV, FILTERPRESENT=T.sym(BOOL, name + '.filter'), encoding=T.sym(STR, name + '.enc'))
    f = T.eng.val(T.st, r).fields
    return r, T.snap(f['freq_dict']), f['FILTERPRESENT'].t


def near(eng, n, cells, c):
    """how many of the cells hold a line with the collocate c"""
    i = z3.FreshConst(z3.IntSort(), 'i')
    x = cells.get(i)
    d = eng.new_sum([c], i, z3.If(z3.And(z3.Not(x.isnone), cfun(eng)(x.val.items[0].t) == c), z3.IntVal(1), z3.IntVal(0)))
    return lambda q: d.at([q], n)


@contract('P08', TT + ':ColFreqHandler.update_one_match', params=('given', 'open'))
def _(T, colmode):
    use_formatter(T)
    eng = T.eng
    win, L, R, left, right, node = window(T)
    mr, m = counts(T, 'm')
    rv, rd, rf = vocab0(T, 'rows')
    cv, cd, cf = vocab0(T, 'cols')
    T.pre(cf == z3.BoolVal(colmode == 'given'))
    h = T.obj(TT + ':ColFreqHandler', formatter=T.obj(CF))
    for s, r in T.normal(T.call(TT + ':ColFreqHandler.update_one_match', [h, TupV([mr, rv, cv]), win])):
        e = T.snap(mr, s)
        cc = z3.Const('cc', STR.sort)
        nl, nr = near(eng, L, left, cc), near(eng, R, right, cc)
        ty = tfun(eng)(node.val.items[0].t)
        hit = lambda t: z3.And(z3.Not(node.isnone), t == ty, z3.Or(z3.Not(rf), rd.dom(P(STR, t))))
        sel = lambda c: z3.BoolVal(True) if colmode == 'open' else cd.dom(P(STR, c))
        T.post(s, 'the counts grow by exactly the selected context words in the window of a selected target',
               forall([STR, STR], lambda t, c: cnt(e, t, c) == cnt(m, t, c) + z3.If(z3.And(hit(t.t), sel(c.t)), nl(c.t) + nr(c.t), 0)))
        T.unchanged(s, 'window unchanged', T.eng.val(T.st, win).fields['left'], T.eng.val(T.st, win).fields['right'])
        T.unchanged(s, 'row vocabulary unchanged', T.eng.val(T.st, rv).fields['freq_dict'])
        if colmode == 'given': T.unchanged(s, 'column vocabulary unchanged', T.eng.val(T.st, cv).fields['freq_dict'])
        else:
            cd2 = T.snap(T.eng.val(s, cv).fields['freq_dict'], s)
            T.post(s, 'the column vocabulary grows by the context words counted',
                   forall([STR], lambda c: z3.And(z3.If(cd2.dom(c), cd2.val(c).t, 0) == z3.If(cd.dom(c), cd.val(c).t, 0)
                          + z3.If(z3.And(z3.Not(node.isnone), z3.Or(z3.Not(rf), rd.dom(P(STR, ty)))), nl(c.t) + nr(c.t), 0))))


# ------------------------------------------------------------------------------------------- the sliding window
# Occurrences of a file are numbered 0, 1, ... in reading order; occurrence o is the match occ_m(o) on line occ_l(o).
# A window that slides over the occurrences lo..hi-1 and has been fed up to occurrence number `fed` (exclusive; numbers
# >= hi stand for the None's fed at the end) shows occurrence fed-R-1 in the middle.
def occ(eng, o):
    return TupV([P(MATCH, eng.uf('occ_match', z3.IntSort(), MATCH.sort)(o)), P(INT, eng.uf('occ_line', z3.IntSort(), z3.IntSort())(o))])


def clamp(x, lo, hi): return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def cell_is(eng, cell, o, lo, hi):
    """a window cell holds occurrence o of the stretch lo..hi-1, None outside"""
    if isinstance(cell, NoneV): return z3.Or(o < lo, o >= hi)
    if isinstance(cell, TupV): return z3.And(lo <= o, o < hi, eqv(cell, occ(eng, o)))
    return z3.And(cell.isnone == z3.Or(o < lo, o >= hi), z3.Implies(z3.And(lo <= o, o < hi), eqv(coerce(cell.val, ELEM), occ(eng, o))))


def shows(eng, st, win, L, R, lo, hi, fed):
    """[(label, formula)] the window shows the stretch around occurrence fed-R-1"""
    w = eng.val(st, win)
    left, right, node = eng.snap(st, w.fields['left']), eng.snap(st, w.fields['right']), eng.snap(st, w.fields['node'])
    j = z3.FreshConst(z3.IntSort(), 'j')
    def cells(v, first):
        if v.items is not None and not v.items: return z3.BoolVal(True)
        x = v.get(j)
        f = z3.Implies(z3.And(0 <= j, j < v.n), cell_is(eng, x, first + j, lo, hi))
        pat = x.isnone if isinstance(x, OptV) else None
        try: return z3.ForAll([j], f, patterns=[pat]) if pat is not None and is_uf(pat) else z3.ForAll([j], f)
        except z3.Z3Exception: return z3.ForAll([j], f)
    return [('window length left', left.n == L), ('window length right', right.n == R),
            ('spans', z3.And(w.fields['left_span'].t == L, w.fields['right_span'].t == R)),
            ('left window', cells(left, fed - R - 1 - L)), ('right window', cells(right, fed - R)),
            ('window centre', cell_is(eng, node, fed - R - 1, lo, hi))]


def is_uf(t): return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def ghost(T):
    """ghost state: stretch lo..hi-1, occurrences fed, occurrences handed to update_one_match"""
    g = T.obj('ghost:Ghost', lo=T.sym(INT, 'lo'), hi=T.sym(INT, 'hi'), fed=T.sym(INT, 'fed'), done=T.sym(INT, 'done'))
    return g, lambda st: tuple(T.eng.val(st, g).fields[f].t for f in ('lo', 'hi', 'fed', 'done'))


def setg(eng, st, g, **kw):
    o = st.heap[g.cell]
    st.heap[g.cell] = ObjV(o.cls, dict(o.fields, **{k: P(INT, v) for k, v in kw.items()}))


def the_window(eng, st):
    """the one window a function works with"""
    ws = {}
    for v in st.env.values():
        if isinstance(v, Ref) and isinstance(st.heap.get(v.cell), ObjV) and st.heap[v.cell].cls == WIN: ws[v.cell] = v
    return list(ws.values())[0] if len(ws) == 1 else None


def use_window(T, g, G, feeding=False):
    """calls of Window.update advance the ghost position"""
    eng = T.eng
    mod, node, cls = eng.repo.func(WIN + '.update')
    def upd(eng, st, args, kw):
        fn = ConcV('func', mod=mod, node=node, cls=cls, closure=None, force_inline=True)
        rs = eng.call(st, fn, args, kw)
        for s, r in rs:
            if not isinstance(r, Exc): setg(eng, s, g, fed=G(s)[2] + 1)
            if feeding:
                c = args[1]
                more = z3.If(c.isnone, 0, 1) if isinstance(c, OptV) else z3.IntVal(0 if isinstance(c, NoneV) else 1)
                setg(eng, s, g, hi=G(s)[1] + more)
        return rs
    eng.callees[WIN + '.update'] = upd


def window_invariants(T, L, R, G, extra=()):
    eng = T.eng
    def part(k):
        def f(V):
            w = the_window(eng, V.st)
            if w is None: return None
            lo, hi, fed, done = G(V.st)
            return shows(eng, V.st, w, L, R, lo, hi, fed)[k][1]
        return f
    names = ['window length left', 'window length right', 'spans', 'left window', 'right window', 'window centre']
    eng.generic = [(nm, part(k)) for k, nm in enumerate(names)] + [
        ('everything up to the centre is handled', lambda V: (lambda lo, hi, fed, done: done == clamp(fed - R, lo, hi))(*G(V.st))),
        ('everything before the centre is handled', lambda V: (lambda lo, hi, fed, done: done == clamp(fed - R - 1, lo, hi))(*G(V.st))),
        ('the stretch', lambda V: (lambda lo, hi, fed, done: z3.And(lo <= hi, fed >= lo))(*G(V.st))),
        ('the stretch is read', lambda V: (lambda lo, hi, fed, done: hi <= fed)(*G(V.st)))] + list(extra)


def passed_on(eng, st, args, kw, data, fid, what):
    eng.oblige(st, 'the data structure is passed on to %s' % what, z3.BoolVal(isinstance(args[1], (Ref, TupV)) and same_ref(args[1], data)))
    if fid is not None:
        f = kw.get('fid', args[3] if len(args) > 3 else None)
        eng.oblige(st, 'the file id is passed on to %s' % what, eqv(eng.val(st, f), fid) if f is not None else z3.BoolVal(False))


def each_once(T, L, R, g, G, data, fid=None, what='update_one_match', stretch=None):
    """the callee contract of update_one_match as a visitor: every call with a centre is for the next occurrence, with its window"""
    eng = T.eng
    def h(eng, st, args, kw):
        win = args[2]
        w = eng.val(st, win)
        node = w.fields['node']
        out = []
        passed_on(eng, st, args, kw, data, fid, what)
        nn = node.isnone if isinstance(node, OptV) else z3.BoolVal(isinstance(node, NoneV))
        for s, none in eng.split(st, nn):
            if not none:
                lo, hi, fed, done = G(s)
                if stretch is not None:
                    eng.oblige(s, 'only what has been read is handled', z3.And(0 <= done, done < hi))
                    lo, hi = stretch(done)
                eng.oblige(s, 'every occurrence is handled once, in order: number of the occurrence at the centre', cell_is(eng, node, done, lo, hi))
                eng.oblige(s, 'every occurrence is handled once, in order: occurrences left', z3.And(lo <= done, done < hi))
                for lab, f in shows(eng, s, win, L, R, lo, hi, done + R + 1):
                    eng.oblige(s, 'the window handed over is that of the occurrence: ' + lab, f)
                setg(eng, s, g, done=done + 1)
            out.append((s, NONEV))
        return out
    return h


def same_ref(a, b):
    if isinstance(a, Ref) and isinstance(b, Ref): return a.cell == b.cell
    if isinstance(a, TupV) and isinstance(b, TupV): return len(a.items) == len(b.items) and all(same_ref(x, y) for x, y in zip(a.items, b.items))
    return a is b


def right_window(cls, withfid):
    def c(T):
        eng = T.eng
        win, L, R, left, right, node = window(T)
        g, G = ghost(T)
        lo, hi, fed, done = G(T.st)
        T.pre(z3.And(lo <= hi, fed == hi, done == clamp(hi - R, lo, hi)))
        for lab, f in shows(eng, T.st, win, L, R, lo, hi, fed): T.pre(f)
        data = TupV([T.new(TDict(STR, INT), 'd1'), T.new(TDict(STR, INT), 'd2')])
        use_window(T, g, G)
        window_invariants(T, L, R, G)
        fid = T.sym(STR, 'fid') if withfid else None
        eng.callees[TT + ':%s.update_one_match' % cls] = each_once(T, L, R, g, G, data, fid)
        h = T.obj(TT + ':' + cls)
        for s, r in T.normal(T.call(TT + ':%s.process_right_window' % cls, [h, data, win], {'fid': fid} if withfid else {})):
            T.post(s, 'every occurrence left in the right window is handled', G(s)[3] == hi)
    return c


contract('P08', TT + ':ColFreqHandler.process_right_window')(right_window('ColFreqHandler', False))
contract('P09', TT + ':TokenHandler.process_right_window')(right_window('TokenHandler', True))


@contract(['P08', 'P09', 'P28'], WIN + '.update')
def _(T):
    eng = T.eng
    win, L, R, left, right, node = window(T)
    g, G = ghost(T)
    lo, hi, fed, done = G(T.st)
    for lab, f in shows(eng, T.st, win, L, R, lo, hi, fed): T.pre(f)
    cur = T.sym(CELL, 'cur')
    T.pre(cell_is(eng, cur, fed, lo, hi))
    for s, r in T.normal(T.call(WIN + '.update', [win, cur])):
        for lab, f in shows(eng, s, win, L, R, lo, hi, fed + 1): T.post(s, 'the window moves one occurrence on: ' + lab, f)


@contract(['P08', 'P09', 'P28'], WIN + '.__init__')
def _(T):
    eng = T.eng
    L, R = T.sym(INT, 'L'), T.sym(INT, 'R')
    T.pre(z3.And(L.t >= 0, R.t >= 0))
    eng.generic = [('filled so far', lambda V: (lambda v: v.n == V.i if isinstance(v, ListV) else None)(the_list(eng, V.st))),
                   ('only None', lambda V: (lambda v: none_list(v) if isinstance(v, ListV) else None)(the_list(eng, V.st)))]
    for s, w in T.normal(T.construct(WIN, [L, R])):
        f = eng.val(s, w).fields
        T.post(s, 'spans', z3.And(f['left_span'].t == L.t, f['right_span'].t == R.t))
        for nm, m in (('left', L), ('right', R)):
            v = T.snap(f[nm], s)
            T.post(s, '%s window is empty and as long as the span' % nm, z3.And(v.n == m.t, none_list(v)))
            c = eng.cell_of(s, f[nm])
            T.post(s, '%s window keeps its length' % nm, eng.maxlen[c] == m.t if c in eng.maxlen else z3.BoolVal(False))
        T.post(s, 'no centre', z3.BoolVal(isinstance(f['node'], NoneV)))


def the_list(eng, st):
    c = [v for v in st.env.values() if isinstance(v, Ref) and eng.cell_of(st, v) in eng.maxlen]
    return eng.val(st, c[0]) if len(c) == 1 else None


def none_list(v):
    if v.items is not None: return z3.BoolVal(all(isinstance(x, NoneV) for x in v.items))
    j = z3.FreshConst(z3.IntSort(), 'j')
    x = v.get(j)
    if isinstance(x, NoneV): return z3.BoolVal(True)
    if isinstance(x, OptV): return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), x.isnone))
    return z3.BoolVal(False)


class Lines(object):
    """ghost view of a corpus file: rank(i) occurrences on the lines before line i, base(i) of them before the current stretch,
    end(i) the line that ends the stretch line i is in, pos(k) the line of occurrence k.  Defined by recursion over the lines."""
    def __init__(self, T, path, enc):
        eng = self.eng = T.eng
        i = z3.FreshConst(z3.IntSort(), 'i')
        Int = z3.IntSort()
        self.n, line = iolib.file_lines(eng, path, enc)
        self.line = line
        self.rank, self.base, self.end, self.pos = [eng.uf('line.' + f, Int, Int) for f in ('rank', 'base', 'end', 'pos')]
        self.nomatch, self.thematch = eng.uf('no_match', STR.sort, z3.BoolSort()), eng.uf('the_match', STR.sort, MATCH.sort)
        self.nosep, self.thesep = eng.uf('no_separator', STR.sort, z3.BoolSort()), eng.uf('the_separator', STR.sort, MATCH.sort)
        strip = lambda t: T.strcall(P(STR, t), 'strip').t
        self.isM = lambda j: z3.Not(self.nomatch(strip(line(j))))
        self.isS = lambda j: z3.And(z3.Not(self.isM(j)), z3.Not(self.nosep(strip(line(j)))))
        M, SP = self.isM(i), self.isS(i)
        rank, base, end, pos = self.rank, self.base, self.end, self.pos
        A = lambda f: eng.assume(T.st, z3.ForAll([i], z3.Implies(rng(i, self.n), f), patterns=[line(i)]))
        eng.assume(T.st, self.n >= 0, rank(0) == 0, base(0) == 0, end(self.n) == self.n)
        A(rank(i + 1) == rank(i) + z3.If(M, 1, 0))
        A(base(i + 1) == z3.If(SP, rank(i), base(i)))
        A(end(i) == z3.If(SP, i, end(i + 1)))
        A(z3.Implies(M, z3.And(pos(rank(i)) == i, eqv(occ(eng, rank(i)), TupV([P(MATCH, self.thematch(strip(line(i)))), P(INT, i + 1)])))))
        # lemma, by induction from the last line backwards: no occurrence is lost between a line and the end of its stretch
        lem = lambda j: rank(end(j)) >= rank(j)
        eng.oblige(T.st, 'lemma: a stretch ends after it begins (last line)', lem(self.n))
        k = eng.fresh_fn(T.st, 'k', Int)()
        eng.oblige(T.st, 'lemma: a stretch ends after it begins (step)',
                   z3.Implies(z3.And(rng(k, self.n), lem(k + 1), line(k) == line(k)), lem(k)))
        s2 = T.st.fork(); s2.pc = s2.pc + (rng(k, self.n), lem(k + 1), eng.uf('see', STR.sort, z3.BoolSort())(line(k)))
        j = z3.FreshConst(Int, 'j')
        eng.assume(T.st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= self.n), lem(j)), patterns=[rank(end(j))]))
        eng.assume(T.st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= self.n), lem(j)), patterns=[rank(j)]))
    def stretch(self, k): return self.base(self.pos(k)), self.rank(self.end(self.pos(k)))


def use_lines(T, F):
    """callee contracts of the formatter: a line is an item, a separator or neither (functions of the stripped line)"""
    def matching(no, the):
        def h(eng, st, args, kw):
            l = eng.val(st, args[1]).t
            return [(st, OptV(no(l), P(MATCH, the(l))))]
        return h
    T.eng.callees[CF + '.match_line'] = matching(F.nomatch, F.thematch)
    T.eng.callees[CF + '.separator_line_machine'] = matching(F.nosep, F.thesep)


@contract(['P08', 'P09', 'P28'], HD + ':BaseHandler.update_one_file', params=[(c, e) for c in ('ColFreqHandler', 'TokenHandler') for e in ('encoding given', 'default encoding')])
def _(T, param):
    cls, enc = param
    eng = T.eng
    L, R = T.sym(INT, 'L'), T.sym(INT, 'R')
    T.pre(z3.And(L.t >= 0, R.t >= 0))
    fn, cp, fe = T.sym(STR, 'filename'), T.sym(STR, 'corpus-path'), T.sym(STR, 'file-encoding')
    d = {'left-span': L, 'right-span': R, 'corpus-path': cp}
    if enc == 'encoding given': d['file-encoding'] = fe
    settings = T.new(CDictV(d), 'settings')
    h = T.obj(TT + ':' + cls, settings=settings, formatter=T.obj(CF))
    F = Lines(T, fn.t, fe.t if enc == 'encoding given' else S('utf-8').t)
    use_lines(T, F)
    g, G = ghost(T)
    T.pre(z3.And(*[x == 0 for x in G(T.st)]))
    rel = eng.norm(T.st, eng.ext['os.path.relpath'](eng, T.st, [fn], {'start': cp}))[0][1]
    fid = eng.norm(T.st, eng.ext['os.path.splitext'](eng, T.st, [rel], {}))[0][1].items[0]
    data = TupV([T.new(TDict(STR, INT), 'd1'), T.new(TDict(STR, INT), 'd2')])
    use_window(T, g, G, feeding=True)
    def fresh_window(eng, st, args, kw):
        self, l, r = args[0], args[1], args[2]
        left, right = [eng.alloc(st, ListV(x.t, lambda i: NONEV, NONE)) for x in (l, r)]
        eng.maxlen[left.cell], eng.maxlen[right.cell] = l.t, r.t
        st.heap[self.cell] = ObjV(WIN, {'left_span': l, 'right_span': r, 'left': left, 'right': right, 'node': NONEV})
        hi = G(st)[1]
        setg(eng, st, g, lo=hi, fed=hi)
        return [(st, NONEV)]
    eng.callees[WIN + '.__init__'] = fresh_window
    eng.callees[TT + ':%s.update_one_match' % cls] = each_once(T, L.t, R.t, g, G, data, fid, stretch=F.stretch)
    def prw(eng, st, args, kw):
        win = args[2]
        passed_on(eng, st, args, kw, data, fid, 'process_right_window')
        lo, hi, fed, done = G(st)
        for lab, f in shows(eng, st, win, L.t, R.t, lo, hi, fed): eng.oblige(st, 'window handed to process_right_window: ' + lab, f)
        eng.oblige(st, 'process_right_window is called in step', z3.And(lo <= hi, fed == hi, done == clamp(hi - R.t, lo, hi)))
        k = z3.FreshConst(z3.IntSort(), 'k')
        a, b = F.stretch(k)
        eng.oblige(st, 'process_right_window is called at the end of a stretch', z3.ForAll([k], z3.Implies(z3.And(done <= k, k < hi), z3.And(a == lo, b == hi))))
        w = eng.val(st, win)
        for f in ('left', 'right'):
            c = eng.cell_of(st, w.fields[f])
            v = eng.fresh(st, TList(CELL), 'h'); eng.assume(st, v.n == eng.maxlen[c])
            st.heap[c] = v
        st.heap[win.cell] = ObjV(w.cls, dict(w.fields, node=eng.fresh(st, CELL, 'h')))
        setg(eng, st, g, done=hi, fed=eng.fresh_fn(st, 'fed', z3.IntSort())())
        return [(st, NONEV)]
    eng.callees[TT + ':%s.process_right_window' % cls] = prw
    def steps(V):
        lo, hi, fed, done = G(V.st)
        return z3.And(lo == F.base(V.i), hi == F.rank(V.i), fed == hi, lo <= hi, 0 <= lo)
    def same_stretch(V):
        lo, hi, fed, done = G(V.st)
        k = z3.FreshConst(z3.IntSort(), 'k')
        return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(F.base(F.pos(k)) == lo, F.end(F.pos(k)) == F.end(V.i))), patterns=[F.pos(k)])
    window_invariants(T, L.t, R.t, G, [('occurrences read', steps), ('one stretch', same_stretch)])
    for s, r in T.normal(T.call(HD + ':BaseHandler.update_one_file', [h, fn, data])):
        T.post(s, 'every occurrence of the file is handled exactly once', G(s)[3] == F.rank(F.n))
        T.post(s, 'every occurrence of the file is read', G(s)[1] == F.rank(F.n))


# ------------------------------------------------------------------------------------------- frequency lists (P07)
IF = TT + ':ItemFreqHandler'


def freq(d, w): return z3.If(d.dom(w), d.val(w).t, 0)


class FileCounts(object):
    """count(w): how many lines of the file are items of the type w"""
    def __init__(self, T, path, enc):
        eng = self.eng = T.eng
        self.n, self.line = iolib.file_lines(eng, path, enc)
        eng.assume(T.st, self.n >= 0)
        self.nomatch, self.thematch = eng.uf('no_match', STR.sort, z3.BoolSort()), eng.uf('the_match', STR.sort, MATCH.sort)
        self.nosep, self.thesep = eng.uf('no_separator', STR.sort, z3.BoolSort()), eng.uf('the_separator', STR.sort, MATCH.sort)
        i, w = z3.FreshConst(z3.IntSort(), 'i'), z3.Const('w!fc', STR.sort)
        s = T.strcall(P(STR, self.line(i)), 'strip').t
        d = eng.new_sum([w], i, z3.If(z3.And(z3.Not(self.nomatch(s)), tfun(eng)(self.thematch(s)) == w), z3.IntVal(1), z3.IntVal(0)))
        self.count = lambda q: d.at([q.t if isinstance(q, P) else q], self.n)
        self.isitem = lambda j: z3.Not(self.nomatch(z3.substitute(s, (i, j))))
        self.type = lambda j: tfun(eng)(self.thematch(z3.substitute(s, (i, j))))


@contract('P07', IF + '.update_one_file')
def _(T):
    eng = T.eng
    use_formatter(T)
    fn, enc = T.sym(STR, 'filename'), T.sym(STR, 'encoding')
    F = FileCounts(T, fn.t, enc.t)
    use_lines(T, F)
    v, d, _ = vocab0(T, 'vocab')
    h = T.obj(IF, formatter=T.obj(CF), input_encoding=enc)
    for s, r in T.normal(T.call(IF + '.update_one_file', [h, fn, v])):
        e = T.snap(eng.val(s, v).fields['freq_dict'], s)
        T.post(s, 'every type gains the number of item lines it has in the file', forall([STR], lambda w: freq(e, w) == freq(d, w) + F.count(w)))
        T.post(s, 'a type is listed when it was listed or occurs', forall([STR], lambda w: e.dom(w) == z3.Or(d.dom(w), exists([INT], lambda j: z3.And(rng(j.t, F.n), F.isitem(j.t), F.type(j.t) == w.t)))))


def file_counts(eng):
    """contract of update_one_file, for callers: what the file adds"""
    c = eng.uf('file.count', STR.sort, STR.sort, z3.IntSort())
    has = eng.uf('file.has', STR.sort, STR.sort, z3.BoolSort())
    return c, has


@contract('P07', IF + '._do_process_job')
def _(T):
    eng = T.eng
    c, has = file_counts(eng)
    fn = T.sym(STR, 'fname')
    a, b = [z3.Const('w%d!j' % k, STR.sort) for k in (0, 1)]
    eng.assume(T.st, z3.ForAll([a], z3.And(c(fn.t, a) >= 0, has(fn.t, a) == (c(fn.t, a) > 0)), patterns=[c(fn.t, a)]))
    h = T.obj(IF, formatter=T.obj(CF), input_encoding=T.sym(STR, 'enc'))
    def uof(eng, st, args, kw):
        f, v = eng.val(st, args[1]), eng.val(st, args[2])
        r = v.fields['freq_dict']
        d = eng.snap(st, r)
        d = coerce(d, TDict(STR, INT)) if not isinstance(d, CDictV) else cdict_to_dict(d, TDict(STR, INT))
        new = DictV(STR, INT, lambda w: z3.Or(d.dom(w), has(f.t, w.t)), lambda w: P(INT, freq(d, w) + c(f.t, w.t)))
        eng.write(st, r, new)
        return [(st, NONEV)]
    eng.callees[IF + '.update_one_file'] = uof
    for s, r in T.normal(T.call(IF + '._do_process_job', [h, fn])):
        e = T.snap(r, s)
        T.post(s, 'the result holds the counts of the one file', forall([STR], lambda w: z3.And(e.dom(w) == has(fn.t, w.t), z3.Implies(e.dom(w), e.val(w).t == c(fn.t, w.t)))))


class Queue(object):
    """a queue as the verified code sees it: get() delivers item number `taken`, put(x) appends to `items`"""
    def __init__(self, T, name, el, items=None, size=None):
        eng = T.eng
        self.got = T.sym(TList(el), name) if items is None else items
        self.state = T.obj('ghost:QueueState', taken=I(0))
        self.out = T.new(TList(el), name + '.put') if items is None else None
        self.T = T
        self.size = size
        self.ref = T.obj('ghost:Queue', get=ConcV('pyfn', f=self.get), qsize=ConcV('pyfn', f=self.qsize), put=ConcV('pyfn', f=self.put))
    def taken(self, st): return self.T.eng.val(st, self.state).fields['taken'].t
    def get(self, eng, st, args, kw):
        k = self.taken(st)
        st.heap[self.state.cell] = ObjV('ghost:QueueState', {'taken': P(INT, k + 1)})
        return eng.box(st, self.got.get(k))
    def qsize(self, eng, st, args, kw): return I(self.size)
    def put(self, eng, st, args, kw):
        eng.list_append(st, self.out, args[0])
        return NONEV


@contract('P07', IF + '._process_results')
def _(T):
    eng = T.eng
    n = T.sym(INT, 'n')
    T.pre(n.t >= 0)
    q = Queue(T, 'res', TDict(STR, INT))
    h = T.obj(IF)
    j, w = z3.FreshConst(z3.IntSort(), 'j'), z3.Const('w!pr', STR.sort)
    x = q.got.get(j)
    tot = eng.new_sum([w], j, z3.If(x.dom(P(STR, w)), x.val(P(STR, w)).t, z3.IntVal(0)))
    for s, r in T.normal(T.call(IF + '._process_results', [h, q.ref], {'n': n})):
        e = T.snap(r, s)
        T.post(s, 'all n results are taken', q.taken(s) == n.t)
        T.post(s, 'the counts of a type are the sum of its counts in the results', forall([STR], lambda w: freq(e, w) == tot.at([w.t], n.t)))
        T.post(s, 'listed are the types some result lists', forall([STR], lambda w: e.dom(w) == exists([INT], lambda j: z3.And(rng(j.t, n.t), q.got.get(j.t).dom(w)))))


# ------------------------------------------------------------------------------------------- worker processes (P10)
PROC = TU('Process')


def getg(eng, st, g, f): return eng.val(st, g).fields[f].t


@contract('P10', HD + ':Paralleler.process')
def _(T):
    eng = T.eng
    fnames = T.new(TList(STR), 'fnames')
    nf = T.snap(fnames).n
    workers = T.sym(INT, 'workers')
    T.pre(workers.t >= 1)
    g = T.obj('ghost:Ghost', created=I(0), started=I(0), joined=I(0), produced=I(0), merged=I(0))
    get = lambda st, f: getg(eng, st, g, f)
    proc = eng.uf('proc', z3.IntSort(), PROC.sort)
    jobs, results = T.obj('ghost:JobQueue'), T.obj('ghost:ResultQueue')
    eng.ext['multiprocessing.Manager'] = lambda e, s, a, k: e.alloc(s, ObjV('ghost:Manager', {'Queue': ConcV('pyfn', f=queue)}))
    def queue(e, s, a, k):
        made = s.ghost.get('queues', 0)
        s.ghost['queues'] = made + 1
        if made > 1: raise Unsupported('more than two queues')
        return [jobs, results][made]
    h = T.obj(TT + ':ItemFreqHandler', workers=workers)
    def process(e, s, a, k):
        k = dict(k)
        t, args = k.get('target', a[1] if len(a) > 1 else None), k.get('args', a[3] if len(a) > 3 else None)
        ok = isinstance(t, ConcV) and t.kind == 'bound' and t.fn.node.name == '_worker_loop' and same_ref(t.recv, h)
        av = e.val(s, args)
        ok = ok and isinstance(av, (TupV, ListV)) and av.items is not None and len(av.items) == 2 and same_ref(av.items[0], jobs) and same_ref(av.items[1], results)
        e.oblige(s, 'a worker runs the worker loop on the job and the result queue', z3.BoolVal(bool(ok)))
        c = get(s, 'created')
        setg(e, s, g, created=c + 1)
        return P(PROC, proc(c))
    eng.ext['multiprocessing.Process'] = process
    def counted(f, before=None):
        def m(e, s, p, a, k):
            c = get(s, f)
            e.oblige(s, 'each worker is %s once' % f, p.t == proc(c))
            if before: before(e, s)
            setg(e, s, g, **{f: c + 1})
            return NONEV
        return m
    eng.methods[('Process', 'start')] = counted('started')
    eng.methods[('Process', 'join')] = counted('joined', lambda e, s: e.oblige(s, 'jobs are handed out before the workers are awaited', get(s, 'produced') == 1))
    eng.methods[('Process', '__setattr__')] = lambda e, s, p, a, k: NONEV
    def produce(e, s, a, k):
        e.oblige(s, 'all file names are handed out through the job queue', z3.BoolVal(same_ref(a[1], fnames) and same_ref(a[2], jobs)))
        setg(e, s, g, produced=get(s, 'produced') + 1)
        return [(s, NONEV)]
    for c in (HD + ':Paralleler', IF): eng.callees[c + '._job_producer'] = produce
    res = T.sym(TU('Result'), 'result')
    def merge(e, s, a, k):
        n = k.get('n', a[2] if len(a) > 2 else None)
        e.oblige(s, 'the results are those of the result queue', z3.BoolVal(same_ref(a[1], results)))
        e.oblige(s, 'as many results are expected as there are files', eqv(e.val(s, n), P(INT, nf)) if n is not None else z3.BoolVal(False))
        e.oblige(s, 'every worker was started', z3.And(get(s, 'created') == workers.t, get(s, 'started') == workers.t))
        e.oblige(s, 'every worker has finished before the results are merged', get(s, 'joined') == workers.t)
        e.oblige(s, 'the jobs were handed out once', get(s, 'produced') == 1)
        setg(e, s, g, merged=get(s, 'merged') + 1)
        return [(s, res)]
    for c in (HD + ':Paralleler', IF): eng.callees[c + '._process_results'] = merge
    for s, r in T.normal(T.call(HD + ':Paralleler.process', [h, fnames])):
        T.post(s, 'the result is the merged result', eqv(eng.val(s, r), res))
        T.post(s, 'the results are merged once', get(s, 'merged') == 1)
        T.unchanged(s, 'the list of files is unchanged', fnames)


@contract('P10', HD + ':Paralleler._job_producer')
def _(T):
    eng = T.eng
    fnames = T.new(TList(STR), 'fnames')
    fv = T.snap(fnames)
    workers = T.sym(INT, 'workers')
    T.pre(workers.t >= 1)
    g = T.obj('ghost:Ghost', put=I(0))
    def put(e, s, a, k):
        c = getg(e, s, g, 'put')
        x = e.val(s, a[0])
        none = z3.BoolVal(isinstance(x, NoneV)) if not isinstance(x, OptV) else x.isnone
        e.oblige(s, 'the end marker comes after all files', none == (c >= fv.n))
        if not isinstance(x, NoneV):
            e.oblige(s, 'every file is handed out once', z3.Implies(c < fv.n, eqv(x.val if isinstance(x, OptV) else x, fv.get(c))))
        setg(e, s, g, put=c + 1)
        return NONEV
    q = T.obj('ghost:Queue', put=ConcV('pyfn', f=put))
    h = T.obj(IF, workers=workers)
    for s, r in T.normal(T.call(HD + ':Paralleler._job_producer', [h, fnames, q])):
        T.post(s, 'all files and one end marker for each worker', getg(eng, s, g, 'put') == fv.n + workers.t)
        T.unchanged(s, 'the list of files is unchanged', fnames)


@contract('P10', HD + ':Paralleler.__init__')
def _(T):
    eng = T.eng
    cpus = eng.uf('cpu_count', z3.BoolSort(), z3.IntSort())(z3.BoolVal(True))
    eng.assume(T.st, cpus >= 1)
    eng.ext['multiprocessing.cpu_count'] = lambda e, s, a, k: I(cpus)
    for f in ('make_dir', 'clean_dir'): eng.callees['nephosem.utils:' + f] = lambda e, s, a, k: [(s, NONEV)]
    w = T.sym(INT, 'workers')
    for s, r in T.normal(T.construct(HD + ':Paralleler', [], {'workers': w})):
        n = eng.val(s, r).fields['workers'].t
        T.post(s, 'there is at least one worker', n >= 1)
        T.post(s, 'a possible number of workers is respected', z3.Implies(z3.And(0 < w.t, w.t < cpus), n == w.t))


class Jobs(object):
    """the job queue of one worker: M file names, then the end marker"""
    def __init__(self, T, g):
        eng = self.eng = T.eng
        self.M = T.sym(INT, 'M').t
        self.job = Family(TOpt(STR), 'job', [z3.IntSort()])
        j = z3.FreshConst(z3.IntSort(), 'j')
        x = self.job.at([j])
        T.pre(self.M >= 0)
        T.pre(z3.ForAll([j], z3.Implies(rng(j, self.M), z3.Not(x.isnone)), patterns=[x.isnone]))
        T.pre(self.job.at([self.M]).isnone)
        def get(e, s, a, k):
            c = getg(e, s, g, 'taken')
            e.oblige(s, 'nothing is taken after the end marker', c <= self.M)
            setg(e, s, g, taken=c + 1)
            return self.job.at([c])
        self.ref = T.obj('ghost:Queue', get=ConcV('pyfn', f=get), qsize=ConcV('pyfn', f=lambda e, s, a, k: I(e.fresh_fn(s, 'q', z3.IntSort())())))
    def name(self, k): return self.job.at([k]).val


def jobs_in_step(eng, g, J, other):
    """generic invariant: every job taken so far has been `other`ed"""
    return [('every job taken is dealt with', lambda V: z3.And(getg(eng, V.st, g, 'taken') == getg(eng, V.st, g, other), 0 <= getg(eng, V.st, g, 'taken'), getg(eng, V.st, g, 'taken') <= J.M))]


@contract(['P07', 'P10'], IF + '._worker_loop')
def _(T):
    eng = T.eng
    g = T.obj('ghost:Ghost', taken=I(0), put=I(0))
    J = Jobs(T, g)
    c, has = file_counts(eng)
    def job(e, s, a, k):
        f = e.val(s, a[1]).t if not isinstance(e.val(s, a[1]), OptV) else e.val(s, a[1]).val.t
        return [(s, e.alloc(s, DictV(STR, INT, lambda w: has(f, w.t), lambda w: P(INT, c(f, w.t)))))]
    eng.callees[IF + '._do_process_job'] = job
    def put(e, s, a, k):
        n = getg(e, s, g, 'put')
        d = e.snap(s, a[0])
        f = J.name(n).t
        if isinstance(d, DictV):
            e.oblige(s, 'the result put for a file holds its counts', forall([STR], lambda w: z3.And(d.dom(w) == has(f, w.t), z3.Implies(d.dom(w), d.val(w).t == c(f, w.t)))))
        else: e.oblige(s, 'the result put for a file holds its counts', z3.BoolVal(False))
        setg(e, s, g, put=n + 1)
        return NONEV
    q = T.obj('ghost:Queue', put=ConcV('pyfn', f=put))
    eng.generic = jobs_in_step(eng, g, J, 'put')
    for s, r in T.normal(T.call(IF + '._worker_loop', [T.obj(IF), J.ref, q])):
        T.post(s, 'one result for every job up to the end marker', z3.And(getg(eng, s, g, 'taken') == J.M + 1, getg(eng, s, g, 'put') == J.M))


@contract(['P09', 'P10'], TT + ':TokenHandler._worker_loop')
def _(T):
    eng = T.eng
    g = T.obj('ghost:Ghost', taken=I(0), done=I(0), put=I(0))
    J = Jobs(T, g)
    toks = T.new(TDict(STR, TU('TypeNode')), 'type2toks')
    h = T.obj(TT + ':TokenHandler', type2toks=toks)
    def job(e, s, a, k):
        f = e.val(s, a[1])
        n = getg(e, s, g, 'done')
        e.oblige(s, 'every file is processed once, in turn', eqv(f.val if isinstance(f, OptV) else f, J.name(n)))
        e.oblige(s, 'the worker collects into its own tokens', z3.BoolVal(same_ref(a[0], h)))
        e.oblige(s, 'nothing is collected after the tokens were handed over', getg(e, s, g, 'put') == 0)
        setg(e, s, g, done=n + 1)
        return [(s, NONEV)]
    eng.callees[TT + ':TokenHandler._do_process_job'] = job
    def put(e, s, a, k):
        x = e.val(s, a[0])
        if isinstance(x, P): return NONEV            # progress indicator
        e.oblige(s, 'the tokens handed over are those collected', z3.BoolVal(same_ref(a[0], toks)))
        setg(e, s, g, put=getg(e, s, g, 'put') + 1)
        return NONEV
    q = T.obj('ghost:Queue', put=ConcV('pyfn', f=put))
    eng.generic = jobs_in_step(eng, g, J, 'done')
    for s, r in T.normal(T.call(TT + ':TokenHandler._worker_loop', [h, J.ref, q])):
        T.post(s, 'every job up to the end marker is processed', z3.And(getg(eng, s, g, 'taken') == J.M + 1, getg(eng, s, g, 'done') == J.M))
        T.post(s, 'the tokens are handed over once', getg(eng, s, g, 'put') == 1)


@contract(['P08', 'P10'], TT + ':ColFreqHandler._worker_loop', params=('columns given', 'columns open'))
def _(T, mode):
    eng = T.eng
    CFH = TT + ':ColFreqHandler'
    g = T.obj('ghost:Ghost', taken=I(0), done=I(0), saved=I(0), put=I(0), marks=I(0), empty=I(1))
    J = Jobs(T, g)
    rows, rd, _ = vocab0(T, 'rows')
    cols, cd, _ = vocab0(T, 'cols')
    ncols = eng.dict_len(T.st, cd) if hasattr(eng, 'dict_len') else None
    eng.callees[CFH + '.nocolvocab'] = lambda e, s, a, k: [(s, B(mode == 'columns open'))]
    tmp = T.sym(STR, 'subtmpdir')
    eng.callees[HD + ':Paralleler.subtmpdir'] = lambda e, s, a, k: [(s, tmp)]
    eng.callees[HD + ':Paralleler.pid'] = lambda e, s, a, k: [(s, T.sym(INT, 'pid'))]
    h = T.obj(CFH, row_vocab=rows, col_vocab=cols)
    LAB = TU('Labels')
    labels = eng.uf('labels', z3.IntSort(), LAB.sort)
    which = {}
    def items(e, s, a, k):
        v = a[0]
        if same_ref(v, rows): w = 0
        elif same_ref(v, cols): w = 1
        else:
            c = e.val(s, h).fields.get('chunk_col_vocab')
            e.oblige(s, 'the columns are those of the vocabulary of this worker', z3.BoolVal(c is not None and same_ref(v, c)))
            e.oblige(s, 'the columns are listed after the last file', getg(e, s, g, 'done') == J.M)
            w = 2
        return [(s, P(LAB, labels(w)))]
    eng.callees[VOC + '.get_item_list'] = items
    state = {}
    def job(e, s, a, k):
        f, d = e.val(s, a[1]), k.get('mtx_dict', a[2] if len(a) > 2 else None)
        n = getg(e, s, g, 'done')
        e.oblige(s, 'every file is processed once, in turn', eqv(f.val if isinstance(f, OptV) else f, J.name(n)))
        c = e.cell_of(s, d)
        if mode == 'columns open': e.oblige(s, 'the worker has a vocabulary of its own', z3.BoolVal('chunk_col_vocab' in e.val(s, h).fields))
        e.oblige(s, 'all files are counted into one table', z3.BoolVal(state.setdefault('cell', c) == c))
        setg(e, s, g, done=n + 1, empty=e.fresh_fn(s, 'empty', z3.IntSort())())
        return [(s, NONEV)]
    eng.callees[CFH + '._do_process_job'] = job
    def size(e, s, a, k):
        n = e.fresh_fn(s, 'size', z3.IntSort())()
        e.assume(s, n >= 0, (n == 0) == (getg(e, s, g, 'empty') == 1))
        setg(e, s, g, seen=getg(e, s, g, 'done'), size=n)
        return [(s, I(n))]
    setg(eng, T.st, g, seen=z3.IntVal(0), size=z3.IntVal(0))
    eng.callees['nephosem.specutils.mxutils:count_values'] = eng.callees['nephosem.utils:count_values'] = size
    MTX = TU('Matrix')
    def d2m(e, s, a, k):
        off = 1 if isinstance(a[0], Ref) and same_ref(a[0], h) else 0
        d, r, c = a[off:off + 3]
        e.oblige(s, 'the table of counts is turned into the matrix', z3.BoolVal('cell' not in state or e.cell_of(s, d) == state['cell']))
        e.oblige(s, 'the rows are the targets', eqv(r, P(LAB, labels(0))))
        e.oblige(s, 'the columns are the context words', eqv(c, P(LAB, labels(1 if mode == 'columns given' else 2))))
        e.oblige(s, 'the matrix is made when all files are counted', getg(e, s, g, 'done') == J.M)
        return [(s, P(MTX, z3.Const('the_matrix', MTX.sort)))]
    eng.callees[CFH + '.dict2matrix'] = d2m
    def save(e, s, m, a, k):
        s.ghost['file'] = e.val(s, a[0])
        setg(e, s, g, saved=getg(e, s, g, 'saved') + 1)
        return NONEV
    eng.methods[('Matrix', 'save')] = save
    def put(e, s, a, k):
        x = e.val(s, a[0])
        if isinstance(x, P) and x.ty == STR:
            e.oblige(s, 'the file handed over is the one saved', eqv(x, s.ghost['file']) if 'file' in s.ghost else z3.BoolVal(False))
            setg(e, s, g, put=getg(e, s, g, 'put') + 1)
        return NONEV
    q = T.obj('ghost:Queue', put=ConcV('pyfn', f=put))
    eng.generic = jobs_in_step(eng, g, J, 'done') + [
        ('nothing saved yet', lambda V: z3.And(getg(eng, V.st, g, 'saved') == 0, getg(eng, V.st, g, 'put') == 0)),
        ('the size of the table', lambda V: [(k, v.t == getg(eng, V.st, g, 'size')) for k, v in V.st.env.items() if isinstance(v, P) and v.ty == INT and k in V.st0.env]),
        ('the size is up to date', lambda V: z3.And(getg(eng, V.st, g, 'seen') == getg(eng, V.st, g, 'done'), (getg(eng, V.st, g, 'size') == 0) == (getg(eng, V.st, g, 'empty') == 1), getg(eng, V.st, g, 'size') >= 0))]
    for s, r in T.normal(T.call(CFH + '._worker_loop', [h, J.ref, q])):
        G = lambda f: getg(eng, s, g, f)
        T.post(s, 'every job up to the end marker is processed', z3.And(G('taken') == J.M + 1, G('done') == J.M))
        T.post(s, 'the counts are handed over once, when there are any', z3.And(G('saved') == z3.If(G('empty') == 1, 0, 1), G('put') == G('saved')))


# ------------------------------------------------------------------------------------------- tokens (P09)
TH = TT + ':TokenHandler'
ITEM, TYPE, TOKEN = TM + ':ItemNode', TM + ':TypeNode', TM + ':TokenNode'
WORD = dict(word=STR, lemma=STR, pos=STR, type_fmt=STR, colloc_fmt=STR)
ITEMT = TObj(ITEM, **dict(WORD, fid=STR, lid=INT))
TOKT = TObj(TOKEN, **dict(WORD, fid=STR, lid=STR, format=STR, lcollocs=TList(ITEMT), rcollocs=TList(ITEMT)))
TNODET = TObj(TYPE, word=STR, lemma=STR, pos=STR, format=STR, tokens=TList(TOKT))


def field_of(eng): return eng.uf('field_of', MATCH.sort, STR.sort, STR.sort)


@contract(['P09', 'P28'], TH + '.update_one_match', params=('columns given', 'columns open'))
def _(T, mode):
    eng = T.eng
    use_formatter(T)
    fo = field_of(eng)
    fld = lambda m, n: fo(m, S(n).t)
    def get(e, s, a, k):
        return some(e, s, a[1], lambda s2, m: P(STR, fo(m.t, e.val(s2, a[2]).t)))
    eng.callees[CF + '.get'] = get
    # the collocate string of a record made from a match is that of the match (P05: both are the configured fields joined)
    cn = eng.uf('colloc_of_fields', STR.sort, STR.sort, STR.sort, STR.sort)
    m = z3.Const('m!c', MATCH.sort)
    eng.assume(T.st, z3.ForAll([m], cfun(eng)(m) == cn(fld(m, 'word'), fld(m, 'lemma'), fld(m, 'pos')), patterns=[cfun(eng)(m)]))
    def to_colloc(e, s, a, k):
        o = e.val(s, a[0]).fields
        return [(s, P(STR, cn(*[e.val(s, o[n]).t for n in ('word', 'lemma', 'pos')])))]
    eng.callees[ITEM + '.to_colloc'] = to_colloc
    win, L, R, left, right, node = window(T)
    toks = T.new(TDict(STR, TNODET), 'toks')
    d = T.snap(toks)
    cv, cd, cf = vocab0(T, 'cols')
    h = T.obj(TH, formatter=T.obj(CF, settings=T.new(CDictV({'type': T.sym(STR, 'tf'), 'colloc': T.sym(STR, 'cf')}), 'settings'), token_format=T.sym(STR, 'kf'), type_format=T.sym(STR, 'tf')),
              col_vocab=cv, nocolvocab=B(mode == 'columns open'))
    fid = T.sym(STR, 'fid')
    ty = tfun(eng)(node.val.items[0].t)
    lid = node.val.items[1]
    hit = z3.And(z3.Not(node.isnone), d.dom(P(STR, ty)))
    for cells, n in ((left, L), (right, R)):          # the cells show consecutive occurrences: line numbers rise
        j, k = z3.Ints('j k')
        x, y = cells.get(j), cells.get(k)
        T.pre(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n, z3.Not(x.isnone), z3.Not(y.isnone)), x.val.items[1].t < y.val.items[1].t),
                        patterns=[z3.MultiPattern(x.isnone, y.isnone), z3.MultiPattern(x.val.items[1].t, y.val.items[1].t)]))
    for s, r in T.normal(T.call(TH + '.update_one_match', [h, toks, win], {'fid': fid})):
        e = T.snap(toks, s)
        T.post(s, 'the queried types stay the same', forall([STR], lambda t: e.dom(t) == d.dom(t)))
        tl = lambda x, t: x.val(P(STR, t)).fields['tokens']
        T.post(s, 'one token for an occurrence of a queried type, none otherwise',
               forall([STR], lambda t: z3.Implies(d.dom(t), tl(e, t.t).n == tl(d, t.t).n + z3.If(z3.And(hit, t.t == ty), 1, 0))))
        T.post(s, 'the tokens found before are kept', forall([STR, INT], lambda t, j: z3.Implies(z3.And(d.dom(t), rng(j.t, tl(d, t.t).n)), z3.And(
            *[eqv(tl(e, t.t).get(j.t).fields[f], tl(d, t.t).get(j.t).fields[f]) for f in ('word', 'fid', 'lid')]))))
        new = tl(e, ty).get(tl(d, ty).n).fields
        T.post(s, 'the token carries its file and line', z3.Implies(hit, z3.And(eqv(new['fid'], fid), eqv(new['lid'], P(STR, eng.to_str(s, lid))))))
        T.post(s, 'the token carries the fields of the occurrence', z3.Implies(hit, z3.And(*[new[n].t == fld(node.val.items[0].t, n) for n in ('word', 'lemma', 'pos')])))
        for side, cells, n, f in (('left', left, L, 'lcollocs'), ('right', right, R, 'rcollocs')):
            sel = lambda j: z3.And(rng(j, n), z3.Not(cells.get(j).isnone), *([cd.dom(P(STR, cfun(eng)(cells.get(j).val.items[0].t)))] if mode == 'columns given' else []))
            holds = lambda k, j: z3.And(new[f].get(k).fields['lid'].t == cells.get(j).val.items[1].t, eqv(new[f].get(k).fields['fid'], fid),
                                        *[new[f].get(k).fields[w].t == fld(cells.get(j).val.items[0].t, w) for w in ('word', 'lemma', 'pos')])
            T.post(s, 'every context word of the token is a selected word of the %s window' % side,
                   z3.Implies(hit, forall([INT], lambda k: z3.Implies(rng(k.t, new[f].n), exists([INT], lambda j: z3.And(sel(j.t), holds(k.t, j.t)))))))
            T.post(s, 'every selected word of the %s window is a context word of the token' % side,
                   z3.Implies(hit, forall([INT], lambda j: z3.Implies(sel(j.t), exists([INT], lambda k: z3.And(rng(k.t, new[f].n), holds(k.t, j.t)))))))
            T.post(s, 'the context words of the %s window stay in order, none twice' % side,
                   z3.Implies(hit, forall([INT, INT], lambda k, k2: z3.Implies(z3.And(0 <= k.t, k.t < k2.t, k2.t < new[f].n), new[f].get(k.t).fields['lid'].t < new[f].get(k2.t).fields['lid'].t))))


REC = TU('TypeRecord')


@contract(['P09', 'P10'], TH + '._process_results')
def _(T):
    eng = T.eng
    Int, Bool = z3.IntSort(), z3.BoolSort()
    N = T.sym(INT, 'results')
    T.pre(N.t >= 0)
    g = T.obj('ghost:Ghost', taken=I(0))
    isd = eng.uf('is_tokens', Int, Bool)
    fam = Family(TDict(STR, REC), 'res', [Int])
    def get(e, s, a, k):
        c = getg(e, s, g, 'taken')
        setg(e, s, g, taken=c + 1)
        return [(s2, e.box(s2, fam.at([c])) if b else I(-1)) for s2, b in e.split(s, isd(c))]
    q = T.obj('ghost:Queue', get=ConcV('pyfn', f=get), qsize=ConcV('pyfn', f=lambda e, s, a, k: N))
    turn = eng.uf('turn', REC.sort, Int)
    t, w = z3.Int('t!pr'), z3.Const('w!pr2', STR.sort)
    x = fam.at([t])
    T.pre(z3.ForAll([t, w], z3.Implies(z3.And(isd(t), x.dom(P(STR, w))), turn(x.val(P(STR, w)).t) == t), patterns=[x.val(P(STR, w)).t]))
    def merge(e, s, a, k):
        return [(s, e.alloc(s, ObjV('ghost:Merged', {'parts': a[-1]})))]
    eng.callees[TYPE + '.merge'] = merge
    has = lambda j, u: z3.And(rng(j, N.t), isd(j), fam.at([j]).dom(u))
    for s, r in T.normal(T.call(TH + '._process_results', [T.obj(TH), q], {'n': T.sym(INT, 'n')})):
        d = T.snap(r, s)
        parts = lambda u: d.val(u).fields['parts']
        T.post(s, 'every result is taken', getg(eng, s, g, 'taken') == N.t)
        if isinstance(d, CDictV):
            T.post(s, 'the types are those of the results', forall([STR, INT], lambda u, j: z3.Not(has(j.t, u)))); continue
        T.post(s, 'the types are those of the results', forall([STR], lambda u: d.dom(u) == exists([INT], lambda j: has(j.t, u))))
        T.post(s, 'the records of a type in all results are merged', forall([STR, INT], lambda u, j: z3.Implies(has(j.t, u), exists([INT], lambda k: z3.And(rng(k.t, parts(u).n), eqv(parts(u).get(k.t), fam.at([j.t]).val(u)))))))
        T.post(s, 'only records of the type are merged', forall([STR, INT], lambda u, k: z3.Implies(z3.And(d.dom(u), rng(k.t, parts(u).n)), exists([INT], lambda j: z3.And(has(j.t, u), eqv(parts(u).get(k.t), fam.at([j.t]).val(u)))))))
        T.post(s, 'no record is merged twice', forall([STR, INT, INT], lambda u, k, k2: z3.Implies(z3.And(d.dom(u), 0 <= k.t, k.t < k2.t, k2.t < parts(u).n), turn(parts(u).get(k.t).t) < turn(parts(u).get(k2.t).t))))


@contract(['P08', 'P10'], TT + ':ColFreqHandler._process_results')
def _(T):
    eng = T.eng
    Int, Bool = z3.IntSort(), z3.BoolSort()
    N = T.sym(INT, 'results')
    T.pre(N.t >= 0)
    MTX, LAB = TU('Matrix'), TU('Label')
    g = T.obj('ghost:Ghost', taken=I(0))
    isf, name = eng.uf('is_file', Int, Bool), eng.uf('file_name', Int, STR.sort)
    def get(e, s, a, k):
        c = getg(e, s, g, 'taken')
        setg(e, s, g, taken=c + 1)
        u, v = z3.Consts('u v', LAB.sort)        # the sum unfolds
        e.assume(s, z3.ForAll([u, v], tot.at([u, v], c + 1) == tot.at([u, v], c) + tot.f([u, v], c), patterns=[tot.at([u, v], c + 1), tot.at([u, v], c)]))
        return [(s2, P(STR, name(c)) if b else I(-1)) for s2, b in e.split(s, isf(c))]
    q = T.obj('ghost:Queue', get=ConcV('pyfn', f=get), qsize=ConcV('pyfn', f=lambda e, s, a, k: N))
    saved = eng.uf('saved_matrix', STR.sort, MTX.sort)
    cell = eng.uf('matrix_cell', MTX.sort, LAB.sort, LAB.sort, Int)
    row = eng.uf('matrix_row', MTX.sort, LAB.sort, Bool)
    col = eng.uf('matrix_col', MTX.sort, LAB.sort, Bool)
    def load(e, s, a, k):
        f, pk = e.val(s, a[-1]), k.get('pack', B(False))
        e.oblige(s, 'the matrix is loaded as it was saved', z3.Not(e.val(s, pk).t))
        return [(s, P(MTX, saved(f.t)))]
    eng.callees['nephosem.core.matrix:TypeTokenMatrix.load'] = eng.callees['nephosem.core.matrix:BaseMatrix.load'] = load
    def merge(e, s, a, k):
        x, y = [e.val(s, z) for z in a[:2]]
        x, y = [z.val if isinstance(z, OptV) else z for z in (x, y)]
        m = z3.FreshConst(MTX.sort, 'merged')
        r, c = z3.Consts('r c', LAB.sort)
        e.assume(s, z3.ForAll([r, c], cell(m, r, c) == cell(x.t, r, c) + cell(y.t, r, c), patterns=[cell(m, r, c)]),
                 z3.ForAll([r], row(m, r) == z3.Or(row(x.t, r), row(y.t, r)), patterns=[row(m, r)]),
                 z3.ForAll([c], col(m, c) == z3.Or(col(x.t, c), col(y.t, c)), patterns=[col(m, c)]))
        return [(s, P(MTX, m))]
    eng.callees['nephosem.specutils.mxutils:merge_two_matrices'] = merge
    for f in ('os.remove', 'os.rmdir'): eng.ext[f] = lambda e, s, a, k: NONEV
    eng.ext['os.listdir'] = lambda e, s, a, k: e.alloc(s, e.fresh(s, TList(STR), 'files'))
    i = z3.FreshConst(Int, 'i')
    r, c = z3.Consts('rr cc', LAB.sort)
    tot = eng.new_sum([r, c], i, z3.If(isf(i), cell(saved(name(i)), r, c), z3.IntVal(0)))
    def merged(v, n):
        """the value is the sum of the matrices saved by the first n results"""
        none = forall([INT], lambda j: z3.Implies(rng(j.t, n), z3.Not(isf(j.t))))
        if isinstance(v, NoneV): return [('nothing', none)]
        isnone, m = (v.isnone, v.val.t) if isinstance(v, OptV) else (z3.BoolVal(False), v.t)
        ok = z3.Not(isnone)
        return [('nothing', z3.Implies(isnone, none)), ('something', z3.Implies(ok, exists([INT], lambda j: z3.And(rng(j.t, n), isf(j.t))))),
                ('cells', z3.Implies(ok, forall([LAB, LAB], lambda a, b: cell(m, a.t, b.t) == tot.at([a.t, b.t], n)))),
                ('rows', z3.Implies(ok, forall([LAB], lambda a: row(m, a.t) == exists([INT], lambda j: z3.And(rng(j.t, n), isf(j.t), row(saved(name(j.t)), a.t)))))),
                ('columns', z3.Implies(ok, forall([LAB], lambda a: col(m, a.t) == exists([INT], lambda j: z3.And(rng(j.t, n), isf(j.t), col(saved(name(j.t)), a.t))))))]
    def ismtx(v): return isinstance(v, NoneV) or isinstance(v, P) and v.ty == MTX or isinstance(v, OptV) and isinstance(v.val, P) and v.val.ty == MTX
    eng.generic = [('the matrix is the sum of those taken', lambda V: [('%s: %s' % (k, lab), f) for k, v in V.st.env.items() if k in V.st0.env and ismtx(v) for lab, f in merged(v, V.i)]),
                   ('taken', lambda V: getg(eng, V.st, g, 'taken') == V.i)]
    for s, res in T.normal(T.call(TT + ':ColFreqHandler._process_results', [T.obj(TT + ':ColFreqHandler'), q.ref if hasattr(q, 'ref') else q], {'n': T.sym(INT, 'n')})):
        v = eng.val(s, res)
        T.post(s, 'every result is taken', getg(eng, s, g, 'taken') == N.t)
        if not ismtx(v): T.post(s, 'the result is the sum of all saved matrices', z3.BoolVal(False)); continue
        for lab, f in merged(v, N.t): T.post(s, 'the result is the sum of all saved matrices: ' + lab, f)
