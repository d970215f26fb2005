"""Contracts of dependency templates: matching (P25), naming and counting of matches (P26).

networkx graphs are assumed: .nodes / .edges are mappings from a node (a pair of nodes) to its attributes, successors(v)
lists the nodes v has an edge to, each once, out_degree(v) is their number."""
import z3
from pydv.task import *
from pydv.lib import MATCH, RE
from pydv import iolib
from contracts.corpus import ghost, setg, getg, same_ref, use_lines, Lines, vocab0, CF, VOC, rng
from contracts.terms import joined

GR = 'nephosem.core.graph'
DU = 'nephosem.specutils.deputils'
DR = 'nephosem.models.deprel'
DH = DR + ':DepRelHandler'
MG, PG, SG, DG = [GR + ':' + c for c in ('MacroGraph', 'PatternGraph', 'SentenceGraph', 'DiGraph')]
ATTRS = TDict(STR, STR)
EDGE = TTup(INT, INT)


def no_match(eng): return eng.uf('re_no_match', RE.sort, StrSort, z3.BoolSort())
def rx(eng, t): return eng.uf('re_compile', StrSort, RE.sort)(t)


def graph(T, name, attrs=ATTRS):
    """a networkx graph: attributes of nodes and of edges"""
    nodes, edges = T.new(TDict(INT, attrs), name + '.nodes'), T.new(TDict(EDGE, attrs), name + '.edges')
    return T.obj('ghost:Graph', nodes=nodes, edges=edges), T.snap(nodes), T.snap(edges)


@contract('P25', PG + '.match_node', params=('node', 'edge'), label='PatternGraph.match_node / match_edge')
def _(T, what):
    eng = T.eng
    g, nd, ed = graph(T, 'pattern')
    h = T.obj(PG, graph=g)
    item = T.new(ATTRS, 'item'); a = T.snap(item)
    idx = T.sym(INT if what == 'node' else EDGE, 'idx')
    d = nd if what == 'node' else ed
    T.pre(d.dom(idx))
    p = d.val(idx)
    own = lambda k: z3.And(p.dom(k), z3.BoolVal(True) if what == 'node' else k.t != S('id').t)
    T.pre(forall([STR], lambda k: z3.Implies(own(k), a.dom(k))) if what == 'edge' else
          z3.Or(forall([STR], lambda k: z3.Not(a.dom(k))), forall([STR], lambda k: z3.Implies(p.dom(k), a.dom(k)))))    # a word has every attribute a template can ask for
    fits = z3.And(forall([STR], lambda k: z3.Implies(own(k), z3.Not(no_match(eng)(rx(eng, p.val(k).t), a.val(k).t)))),
                  z3.BoolVal(True) if what == 'edge' else exists([STR], lambda k: a.dom(k)))
    for s, r in T.normal(T.call(PG + '.match_' + what, [h, item, idx])):
        v = eng.val(s, r)
        none = z3.BoolVal(True) if isinstance(v, NoneV) else v.isnone if isinstance(v, OptV) else z3.BoolVal(False)
        T.post(s, 'matches exactly when every attribute of the template matches', none == z3.Not(fits))
        T.unchanged(s, 'the word is unchanged', item)


# ------------------------------------------------------------------------------------------- names of targets and features
def use_groups(T):
    """a match has some groups; asking for another one raises IndexError, asking None raises AttributeError"""
    eng = T.eng
    hasg = eng.uf('has_group', MATCH.sort, z3.IntSort(), z3.BoolSort())
    g = eng.uf('match_group', MATCH.sort, z3.IntSort(), StrSort)
    def group(e, st, r, a, k):
        m, i = e.val(st, r), e.val(st, a[0]).t
        out = []
        return [(s, P(STR, g(m.t, i)) if b else Exc('IndexError', 'no such group')) for s, b in e.split(st, hasg(m.t, i))]
    eng.methods[('Match', 'group')] = group
    def shown(regex, text, gid):
        """the group of the match of the text, * when there is none"""
        m = eng.uf('re_match', RE.sort, StrSort, MATCH.sort)(rx(eng, regex), text)
        return z3.If(z3.And(z3.Not(no_match(eng)(rx(eng, regex), text)), hasg(m, gid)), g(m, gid), S('*').t)
    return shown


def a_macro(T, eng, **kw):
    g, nd, ed = graph(T, 'pattern')
    mnodes, medges = T.new(TList(TDict(INT, ATTRS)), 'matched_nodes'), T.new(TList(TDict(EDGE, ATTRS)), 'matched_edges')
    t, f = T.sym(INT, 'target_idx'), T.sym(INT, 'feature_idx')
    ta, fa, ea = [T.new(TDict(STR, INT), n) for n in ('target_node_attrs', 'feature_node_attrs', 'feature_edge_attrs')]
    h = T.obj(MG, graph=g, matched_nodes=mnodes, matched_edges=medges, target_idx=t, feature_idx=f, target_node_attrs=kw.get('ta', ta), feature_node_attrs=fa, feature_edge_attrs=ea)
    return h, nd, ed, T.snap(mnodes), T.snap(medges), t, f, T.snap(ta), T.snap(fa), T.snap(ea)


def named(T, s, attrs, f):
    """the parts of a name, one for every attribute of the format, in the order of the format"""
    en = T.eng.enum_of(s, attrs)
    return joined(T, s, en[0], lambda j: P(STR, f(en[1](j), attrs.val(en[1](j)).t)))


def attributes_exist(T, attrs, pat, item):
    T.pre(forall([STR], lambda k: z3.Implies(attrs.dom(k), z3.And(pat.dom(k), item.dom(k)))))


@contract('P26', MG + '.target', params=('words', 'type', 'token'))
def _(T, how):
    eng = T.eng
    shown = use_groups(T)
    gl, gp = T.sym(INT, 'group-lemma'), T.sym(INT, 'group-pos')
    places = ('fid', 'lid')
    kw = {} if how == 'words' else {'ta': T.new(CDictV({'lemma': gl, 'fid': I(1), 'pos': gp}), 'attrs')}
    h, nd, ed, mn, me, t, f, ta, fa, ea = a_macro(T, eng, **kw)
    i = T.sym(INT, 'index')
    T.pre(rng(i.t, mn.n)); T.pre(nd.dom(t)); T.pre(mn.get(i.t).dom(t))
    pat, item = nd.val(t), mn.get(i.t).val(t)
    if how == 'words':
        attributes_exist(T, ta, pat, item)
        for n in ('LID', 'FID', 'fid', 'lid'): T.pre(z3.Not(ta.dom(S(n))))
    else:
        for n in ('lemma', 'pos'): T.pre(z3.And(pat.dom(S(n)), item.dom(S(n))))
        for n in places: T.pre(item.dom(S(n)))
    for s, r in T.normal(T.call(MG + '.target', [h, i] + ([] if how == 'words' else [S(how)]))):
        if how == 'words': want = named(T, s, ta, lambda k, gid: shown(pat.val(k).t, item.val(k).t, gid))
        else:
            at = lambda n: item.val(S(n)).t
            order = [n for n in ('lemma', 'fid', 'pos') if how == 'token' or n != 'fid']
            def parts(ns, done):
                if not ns: return eng.concat([S('/').t if i % 2 else done[i // 2] for i in range(2 * len(done) - 1)])
                if ns[0] == 'fid': return parts(ns[1:], done + [at('fid')])
                v = shown(pat.val(S(ns[0])).t, at(ns[0]), (gl if ns[0] == 'lemma' else gp).t)
                return z3.If(v.arg(0), parts(ns[1:], done + [v.arg(1)]), parts(ns[1:], done + [v.arg(2)]))
            want = P(STR, parts(order, []))
        T.post(s, 'the target is named by the attributes and groups of the target format', eqv(eng.val(s, r), want))


@contract('P26', MG + '.feature_simple')
def _(T):
    eng = T.eng
    shown = use_groups(T)
    h, nd, ed, mn, me, t, f, ta, fa, ea = a_macro(T, eng)
    i = T.sym(INT, 'index')
    T.pre(rng(i.t, mn.n)); T.pre(nd.dom(f)); T.pre(mn.get(i.t).dom(f))
    pat, item = nd.val(f), mn.get(i.t).val(f)
    attributes_exist(T, fa, pat, item)
    for s, r in T.normal(T.call(MG + '.feature_simple', [h, i])):
        T.post(s, 'the feature is named by the attributes and groups of the feature format', eqv(eng.val(s, r), named(T, s, fa, lambda k, gid: shown(pat.val(k).t, item.val(k).t, gid))))


@contract('P26', MG + '.get_node_repr', params=('node', 'edge'), label='MacroGraph.get_node_repr / get_edge_repr')
def _(T, what):
    eng = T.eng
    shown = use_groups(T)
    h, nd, ed, mn, me, t, f, ta, fa, ea = a_macro(T, eng)
    d, fmt = (nd, fa) if what == 'node' else (ed, ea)
    x = T.sym(INT if what == 'node' else EDGE, 'id')
    item = T.new(ATTRS, 'attrs'); a = T.snap(item)
    T.pre(d.dom(x))
    pat = d.val(x)
    attributes_exist(T, fmt, pat, a)
    for s, r in T.normal(T.call(MG + '.get_%s_repr' % what, [h, x, item])):
        T.post(s, 'named by the attributes and groups of the feature format', eqv(eng.val(s, r), named(T, s, fmt, lambda k, gid: shown(pat.val(k).t, a.val(k).t, gid))))


@contract('P26', MG + '.feature', params=('simple', 'full'))
def _(T, how):
    eng = T.eng
    h, nd, ed, mn, me, t, f, ta, fa, ea = a_macro(T, eng)
    T.pre(f.t == -1 if how == 'full' else f.t != -1)
    i = T.sym(INT, 'index')
    mk = lambda n: (lambda e, s, a, k: [(s, P(STR, e.uf('feature.' + n, z3.IntSort(), StrSort)(e.val(s, a[1] if len(a) > 1 else k['index']).t)))])
    for n in ('simple', 'full'): eng.callees[MG + '.feature_' + n] = mk(n)
    for s, r in T.normal(T.call(MG + '.feature', [h, i])):
        T.post(s, 'one word when a feature node is given, else the whole template', eqv(eng.val(s, r), P(STR, eng.uf('feature.' + how, z3.IntSort(), StrSort)(i.t))))


@contract('P26', MG + '.add_match')
def _(T):
    eng = T.eng
    h, nd, ed, mn, me, t, f, ta, fa, ea = a_macro(T, eng)
    a, b = T.new(TDict(INT, ATTRS), 'nodes'), T.new(TDict(EDGE, ATTRS), 'edges')
    va, vb = T.snap(a), T.snap(b)
    for s, r in T.normal(T.call(MG + '.add_match', [h, a, b])):
        o = eng.val(s, h).fields
        for f, old, x in (('matched_nodes', mn, va), ('matched_edges', me, vb)):
            v = T.snap(o[f], s)
            T.post(s, '%s: one more match' % f, v.n == old.n + 1)
            T.post(s, '%s: the new one is last' % f, eqv(v.get(old.n), x))
            T.post(s, '%s: the earlier ones stay' % f, foralli(old.n, lambda i: eqv(v.get(i), old.get(i))))


# ------------------------------------------------------------------------------------------- sentences of a file
LINE = TTup(INT, STR)


class Sentences(object):
    """ghost view of a corpus file: rank(i) word lines before line i, base(i) of them before the current sentence, sent(i)
    sentences before line i; pos(k) the line of word k; sentence q holds the words lo(q) .. hi(q)-1"""
    def __init__(self, T, path, enc):
        eng = self.eng = T.eng
        Int = z3.IntSort()
        i = z3.FreshConst(Int, 'i')
        self.n, line = iolib.file_lines(eng, path, enc)
        self.rank, self.base, self.sent, self.pos, self.lo, self.hi = [eng.uf('sent.' + f, Int, Int) for f in ('rank', 'base', 'number', 'pos', 'lo', 'hi')]
        rank, base, sent, pos, lo, hi = self.rank, self.base, self.sent, self.pos, self.lo, self.hi
        self.nomatch, self.thematch = eng.uf('no_match', STR.sort, z3.BoolSort()), eng.uf('the_match', STR.sort, MATCH.sort)
        self.nosep, self.thesep = eng.uf('no_separator', STR.sort, z3.BoolSort()), eng.uf('the_separator', STR.sort, MATCH.sort)
        strip = lambda t: T.strcall(P(STR, t), 'strip').t
        self.text = lambda j: strip(line(j))
        M, SP = z3.Not(self.nomatch(strip(line(i)))), z3.Not(self.nosep(strip(line(i))))
        more = rank(i + 1) > base(i)
        eng.assume(T.st, self.n >= 0, rank(0) == 0, base(0) == 0, sent(0) == 0)
        A = lambda f: eng.assume(T.st, z3.ForAll([i], z3.Implies(rng(i, self.n), f), patterns=[line(i)]))
        A(rank(i + 1) == rank(i) + z3.If(M, 1, 0))
        A(base(i + 1) == z3.If(SP, rank(i + 1), base(i)))
        A(sent(i + 1) == sent(i) + z3.If(z3.And(SP, more), 1, 0))
        A(z3.Implies(M, pos(rank(i)) == i))
        A(z3.Implies(z3.And(SP, more), z3.And(lo(sent(i)) == base(i), hi(sent(i)) == rank(i + 1))))
        # the last sentence may end with the file
        self.last = self.rank(self.n) > self.base(self.n)
        eng.assume(T.st, z3.Implies(self.last, z3.And(lo(sent(self.n)) == base(self.n), hi(sent(self.n)) == rank(self.n))))
    def count(self): return self.sent(self.n) + z3.If(self.last, 1, 0)
    def word(self, k): return TupV([P(INT, self.pos(k) + 1), P(STR, self.text(self.pos(k)))])


def words_are(F, v, a, b):
    """the list holds the words a .. b-1"""
    if v.items is not None: return z3.And(b - a == len(v.items), *[eqv(x, F.word(a + k)) for k, x in enumerate(v.items)])
    j = z3.FreshConst(z3.IntSort(), 'j')
    x = v.get(j)
    if not (isinstance(x, TupV) and len(x.items) == 2): return z3.BoolVal(False)
    return z3.And(v.n == b - a, forall_pat([j], z3.Implies(rng(j, v.n), eqv(x, F.word(a + j))), [x.items[1].t]))


def sentences_are(F, y, n):
    if y.items is not None: return z3.And(n == len(y.items), *[words_are(F, x, F.lo(z3.IntVal(k)), F.hi(z3.IntVal(k))) for k, x in enumerate(y.items)])
    q, j = z3.FreshConst(z3.IntSort(), 'q'), z3.FreshConst(z3.IntSort(), 'j')
    v = y.get(q)
    if not isinstance(v, ListV): return z3.BoolVal(False)
    x = v.get(j)
    if not (isinstance(x, TupV) and len(x.items) == 2): return z3.BoolVal(False)
    return z3.And(y.n == n, forall_pat([q], z3.Implies(rng(q, y.n), z3.And(v.n == F.hi(q) - F.lo(q), v.n > 0)), [v.n]),
                  forall_pat([q, j], z3.Implies(z3.And(rng(q, y.n), rng(j, v.n)), eqv(x, F.word(F.lo(q) + j))), [x.items[1].t]))


@contract(['P25', 'P26'], DR + ':read_sentence')
def _(T):
    eng = T.eng
    fn, enc = T.sym(STR, 'filename'), T.sym(STR, 'encoding')
    F = Sentences(T, fn.t, enc.t)
    use_lines(T, F)
    def yielded(V):
        y = V.read(V.st.env['__yield__'])
        return sentences_are(F, y, F.sent(V.i))
    def current(V):
        c = [v for k, v in V.st.env.items() if isinstance(v, Ref) and k != '__yield__' and isinstance(V.eng.val(V.st, v), ListV)]
        out = []
        for k, v in sorted(V.st.env.items()):
            if k == '__yield__' or not isinstance(v, Ref) or not isinstance(V.eng.val(V.st, v), ListV): continue
            l = V.read(v)
            if l.items is None and not (isinstance(l.el, TTup) and len(l.el.els) == 2): continue
            out.append(('words of the sentence (%s)' % k, words_are(F, l, F.base(V.i), F.rank(V.i))))
        return out
    eng.generic = [('sentences so far', yielded), ('words so far', current), ('words read', lambda V: z3.And(F.rank(V.i) >= F.base(V.i), F.base(V.i) >= 0, F.sent(V.i) >= 0))]
    for s, r in T.normal(T.call(DR + ':read_sentence', [fn], {'formatter': T.obj(CF), 'encoding': enc})):
        T.post(s, 'every stretch of word lines between separators is one sentence, with its line numbers; no sentence is empty', sentences_are(F, T.snap(r, s), F.count()))


# ------------------------------------------------------------------------------------------- counting the matches
MACRO, MTX = TU('Macro'), TU('SparseMatrix')
MXU, TTM = 'nephosem.specutils.mxutils', 'nephosem.core.matrix:TypeTokenMatrix'


def macros_of(T):
    """the templates of a handler; each has matches, every match has a target and a feature"""
    eng = T.eng
    Int = z3.IntSort()
    ms = T.new(TList(MACRO), 'macros')
    ml = T.snap(ms)
    number = eng.uf('macro.number', MACRO.sort, Int)
    n = eng.uf('macro.matches', MACRO.sort, Int)
    i = z3.Int('i!ms')
    T.pre(z3.ForAll([i], z3.Implies(rng(i, ml.n), z3.And(number(ml.get(i).t) == i, n(ml.get(i).t) >= 0)), patterns=[ml.get(i).t]))
    return ms, ml, n


@contract('P26', DH + '.build_matrix_by_matches')
def _(T):
    eng = T.eng
    Int = z3.IntSort()
    ms, ml, n = macros_of(T)
    mode = T.sym(STR, 'mode')
    h = T.obj(DH, macros=ms, mode=mode)
    node = Family(TDict(INT, ATTRS), 'match', [MACRO.sort, Int])
    eng.attrs[('Macro', 'matched_nodes')] = lambda e, s, m: e.alloc(s, ListV(n(m.t), lambda i: node.at([m.t, i]), TDict(INT, ATTRS)))
    tgt, ftr = eng.uf('macro.target', MACRO.sort, Int, StrSort, StrSort), eng.uf('macro.feature', MACRO.sort, Int, StrSort)
    def target(e, s, m, a, k):
        b = dict(zip(('index', 'mode'), a)); b.update(k)
        i = e.val(s, b.get('index', I(0))).t
        e.oblige(s, 'the target is that of a match', rng(i, n(m.t)))
        return P(STR, tgt(m.t, i, e.val(s, b['mode']).t if 'mode' in b else S('type').t))
    def feature(e, s, m, a, k):
        i = e.val(s, a[0] if a else k.get('index', I(0))).t
        e.oblige(s, 'the feature is that of a match', rng(i, n(m.t)))
        return P(STR, ftr(m.t, i))
    eng.methods[('Macro', 'target')], eng.methods[('Macro', 'feature')] = target, feature
    t, f = z3.Const('t!bm', StrSort), z3.Const('f!bm', StrSort)
    m, i = z3.FreshConst(Int, 'm'), z3.FreshConst(Int, 'i')
    mac = ml.get(m).t
    one = eng.new_sum([t, f, m], i, z3.If(z3.And(t == tgt(mac, i, mode.t), f == ftr(mac, i)), z3.IntVal(1), z3.IntVal(0)))
    tot = eng.new_sum([t, f], m, one.at([t, f, m], n(mac)))
    T.pre(z3.ForAll([t, f, m], one.at([t, f, m], n(mac)) >= 0, patterns=[one.at([t, f, m], n(mac))]))
    inside = lambda m, i: z3.And(rng(m, ml.n), rng(i, n(ml.get(m).t)))
    mx = T.sym(MTX, 'matrix')
    seen = {}
    def build(e, s, a, kw):
        b = dict(zip(('dict_mtx', 'rowid2item', 'colid2item', 'verbose'), a)); b.update(kw)
        d, rows, cols = [e.snap(s, b[x]) for x in ('dict_mtx', 'rowid2item', 'colid2item')]
        some = exists([INT, INT], lambda m, i: inside(m.t, i.t))
        if isinstance(d, CDictV): e.oblige(s, 'nothing is counted only without matches', z3.Not(some)); return [(s, mx)]
        c = lambda t, f: z3.If(z3.And(d.dom(t), d.val(t).dom(f)), d.val(t).val(f).t, 0)
        e.oblige(s, 'every match counts once for its target and its feature', forall([STR, STR], lambda t, f: c(t, f) == tot.at([t.t, f.t], ml.n)))
        lst = lambda l, x: l.mem[0](P(STR, x)) if getattr(l, 'mem', None) else exists([INT], lambda j: z3.And(rng(j.t, l.n), l.get(j.t).t == x))
        e.oblige(s, 'every target is a row', forall([INT, INT], lambda m, i: z3.Implies(inside(m.t, i.t), lst(rows, tgt(ml.get(m.t).t, i.t, mode.t)))))
        e.oblige(s, 'every feature is a column', forall([INT, INT], lambda m, i: z3.Implies(inside(m.t, i.t), lst(cols, ftr(ml.get(m.t).t, i.t)))))
        e.oblige(s, 'every row is a target', foralli(rows.n, lambda j: exists([INT, INT], lambda m, i: z3.And(inside(m.t, i.t), rows.get(j).t == tgt(ml.get(m.t).t, i.t, mode.t)))))
        e.oblige(s, 'every column is a feature', foralli(cols.n, lambda j: exists([INT, INT], lambda m, i: z3.And(inside(m.t, i.t), cols.get(j).t == ftr(ml.get(m.t).t, i.t)))))
        for l in (rows, cols): e.oblige(s, 'labels are distinct', forall([INT, INT], lambda i, j: z3.Implies(z3.And(0 <= i.t, i.t < j.t, j.t < l.n), l.get(i.t).t != l.get(j.t).t)))
        seen['rows'], seen['cols'] = rows, cols
        return [(s, mx)]
    eng.callees[MXU + ':transform_dict_to_spmatrix'] = build
    def init(e, s, a, kw):
        b = dict(zip(('self', 'matrix', 'row_items', 'col_items'), a)); b.update(kw)
        e.oblige(s, 'the matrix is the one built', eqv(e.val(s, b['matrix']), mx))
        if 'rows' in seen: e.oblige(s, 'the matrix has the labels it was built with', z3.And(eqv(e.snap(s, b['row_items']), seen['rows']), eqv(e.snap(s, b['col_items']), seen['cols'])))
        s.heap[a[0].cell] = ObjV(TTM, {'matrix': mx})
        return [(s, NONEV)]
    eng.callees[TTM + '.__init__'] = init
    for s, r in T.normal(T.call(DH + '.build_matrix_by_matches', [h])):
        v = eng.val(s, r)
        T.post(s, 'the result is the matrix built', z3.BoolVal(isinstance(v, ObjV) and v.cls == TTM))
        T.unchanged(s, 'the templates are unchanged', ms)


@contract('P26', DH + '._process_results')
def _(T):
    """matches are sequences: what each result adds for a template goes behind what the template has, nodes and edges alike"""
    eng = T.eng
    Int = z3.IntSort()
    N = T.sym(INT, 'n')
    T.pre(N.t >= 0)
    SEQ = TU('Matches')
    ms, ml, _n = macros_of(T)
    number = eng.uf('macro.number', MACRO.sort, Int)
    res = eng.uf('result.macro', Int, Int, MACRO.sort)
    cat = eng.uf('cat', SEQ.sort, SEQ.sort, SEQ.sort)
    start = {f: eng.uf('start.' + f, Int, SEQ.sort) for f in ('nodes', 'edges')}
    part = {f: eng.uf('part.' + f, MACRO.sort, SEQ.sort) for f in ('nodes', 'edges')}
    seq = {f: eng.uf('seq.' + f, Int, Int, SEQ.sort) for f in ('nodes', 'edges')}
    own = lambda m: number(m) >= 0
    i = z3.Int('i!pr')
    for f in seq: T.pre(z3.ForAll([i], seq[f](i, 0) == start[f](i), patterns=[start[f](i)]))
    g = T.obj('ghost:Ghost', taken=I(0))
    have = {f: T.new(DictV(INT, SEQ, lambda k: z3.BoolVal(True), lambda k, f=f: P(SEQ, start[f](k.t))), 'have.' + f) for f in seq}
    eng.by_invariant |= {x.cell for x in have.values()}
    def get(e, s, a, k):
        c = getg(e, s, g, 'taken')
        setg(e, s, g, taken=c + 1)
        # the templates of a result are not those of the handler; the sequences unfold
        e.assume(s, z3.ForAll([i], z3.And(number(res(c, i)) < 0, *[seq[f](i, c + 1) == cat(seq[f](i, c), part[f](res(c, i))) for f in seq]), patterns=[res(c, i)]))
        return e.alloc(s, ListV(ml.n, lambda i: P(MACRO, res(c, i)), MACRO))
    qu = T.obj('ghost:Queue', get=ConcV('pyfn', f=get), qsize=ConcV('pyfn', f=lambda e, s, a, k: N))
    LST = {f: TU('List' + f) for f in seq}
    wrap = {f: eng.uf('list.' + f, MACRO.sort, LST[f].sort) for f in seq}
    owner = {f: eng.uf('owner.' + f, LST[f].sort, MACRO.sort) for f in seq}
    for f in seq:
        eng.attrs[('Macro', 'matched_' + f)] = lambda e, s, m, f=f: (e.assume(s, owner[f](wrap[f](m.t)) == m.t), P(LST[f], wrap[f](m.t)))[1]
        def extend(e, s, l, a, k, f=f):
            x = e.val(s, a[0])
            if not (isinstance(x, P) and x.ty == LST[f]): raise Unsupported('extended by something else')
            to, frm = owner[f](l.t), owner[f](x.t)
            e.oblige(s, '%s are added to a template of the handler' % f, own(to))
            e.oblige(s, 'what is added comes from a result', z3.Not(own(frm)))
            d = e.val(s, have[f])
            out = e.setitem(s, have[f], P(INT, number(to)), P(SEQ, cat(d.val(P(INT, number(to))).t, part[f](frm))))
            return NONEV
        eng.methods[('List' + f, 'extend')] = extend
    h = T.obj(DH, macros=ms)
    def sofar(V):
        k = getg(eng, V.st, g, 'taken')
        return [(f, forall([INT], lambda i: z3.Implies(rng(i.t, ml.n), V.read(have[f]).val(i).t == seq[f](i.t, V.i)))) for f in seq]
    def inner(V):
        k = getg(eng, V.st, g, 'taken')
        return [(f + ' (inner)', forall([INT], lambda i: z3.Implies(rng(i.t, ml.n), V.read(have[f]).val(i).t == z3.If(i.t < V.i, seq[f](i.t, k), seq[f](i.t, k - 1))))) for f in seq]
    eng.generic = [('matches so far', sofar), ('matches of this result', inner), ('taken', lambda V: getg(eng, V.st, g, 'taken') == V.i), ('taken before', lambda V: getg(eng, V.st, g, 'taken') == getg(eng, V.st0, g, 'taken'))]
    for s, r in T.normal(T.call(DH + '._process_results', [h, qu], {'n': N})):
        T.post(s, 'every result is taken', getg(eng, s, g, 'taken') == N.t)
        for f in seq:
            d = T.snap(have[f], s)
            T.post(s, 'every template gains the matches of all results: ' + f, forall([INT], lambda i: z3.Implies(rng(i.t, ml.n), d.val(i).t == seq[f](i.t, N.t))))


BH = 'nephosem.core.handler:BaseHandler'
SENT = TU('SentenceLines')
NODEVIEW = TTup(INT, TDict(STR, INT))


@contract(['P25', 'P26'], DH + '.update_dep_rel', params=('type', 'token'))
def _(T, mode):
    eng = T.eng
    g = T.obj('ghost:Ghost', runs=I(0))
    fn, ms = T.sym(STR, 'fname'), T.new(TList(MACRO), 'macros')
    m = S(mode)
    h = T.obj(DH, mode=m)
    for how in ('type', 'token'):
        def run(e, s, a, k, how=how):
            b = dict(zip(('self', 'fname', 'macros'), a)); b.update(k)
            e.oblige(s, 'sentences are matched in the mode asked for', z3.BoolVal(how == mode))
            e.oblige(s, 'the file is matched against these templates', z3.And(eqv(e.val(s, b['fname']), fn), z3.BoolVal(same_ref(b['macros'], ms) and same_ref(b['self'], h))))
            setg(e, s, g, runs=getg(e, s, g, 'runs') + 1)
            return [(s, NONEV)]
        eng.callees[DH + '.update_dep_rel_' + how] = run
    for s, r in T.normal(T.call(DH + '.update_dep_rel', [h, fn, ms])):
        T.post(s, 'the file is matched once', getg(eng, s, g, 'runs') == 1)


@contract('P26', DH + '.update_dep_rel_type', params=('type', 'token'), label='update_dep_rel_type / update_dep_rel_token')
def _(T, mode):
    eng = T.eng
    Int = z3.IntSort()
    fn, enc = T.sym(STR, 'fname'), T.sym(STR, 'encoding')
    fm = T.obj(CF)
    ms, ml, _n = macros_of(T)
    number = eng.uf('macro.number', MACRO.sort, Int)
    h = T.obj(DH, formatter=fm, input_encoding=enc, mode=S(mode))
    sents = T.sym(TList(SENT), 'sentences')
    place = eng.uf('sentence.number', SENT.sort, Int)
    q = z3.Int('q!s')
    T.pre(z3.ForAll([q], z3.Implies(rng(q, sents.n), place(sents.get(q).t) == q), patterns=[sents.get(q).t]))
    tree = eng.uf('sentence.istree', SENT.sort, z3.BoolSort())
    g = T.obj('ghost:Ghost', now=I(0))
    done = T.new(DictV(TTup(INT, INT), INT, lambda k: z3.BoolVal(True), lambda k: I(0)), 'matched')
    eng.by_invariant |= {done.cell, g.cell}
    def read(e, s, a, k):
        b = dict(zip(('filename', 'formatter', 'encoding'), a)); b.update(k)
        e.oblige(s, 'the sentences are those of the file', eqv(e.val(s, b['filename']), fn))
        e.oblige(s, 'read with the formatter and the encoding of the handler', z3.And(z3.BoolVal(same_ref(b.get('formatter'), fm)), eqv(e.val(s, b['encoding']), enc) if 'encoding' in b else z3.BoolVal(False)))
        return [(s, e.alloc(s, sents))]
    eng.callees[DR + ':read_sentence'] = read
    base = None
    if mode == 'token':
        b0 = eng.norm(T.st, eng.ext['os.path.basename'](eng, T.st, [fn], {}))[0][1]
        l = T.snap(eng.norm(T.st, eng.methods[('str', 'rsplit')](eng, T.st, b0, [S('.'), I(1)], {}))[0][1])
        base = l.get(z3.IntVal(0)) if l.items is None else l.items[0]
    def init(e, s, a, k):
        b = dict(zip(('self', 'nodes', 'edges', 'sentence', 'formatter', 'mode', 'fname', 'settings'), a)); b.update(k)
        w = e.val(s, b['sentence'])
        e.oblige(s, 'the graph is built with the formatter of the handler', z3.BoolVal(same_ref(b.get('formatter'), fm)))
        if mode == 'token':
            e.oblige(s, 'words are labelled as tokens', eqv(e.val(s, b['mode']), S('token')) if 'mode' in b else z3.BoolVal(False))
            e.oblige(s, 'tokens carry the name of their file', eqv(e.val(s, b['fname']), base) if 'fname' in b else z3.BoolVal(False))
        elif 'mode' in b: e.oblige(s, 'words are labelled as types', eqv(e.val(s, b['mode']), S('type')))
        setg(e, s, g, now=place(w.t))
        s.heap[a[0].cell] = ObjV(SG, {'words': w, 'fid': e.val(s, b['fname']) if 'fname' in b else S('')})
        return [(s, NONEV)]
    eng.callees[SG + '.__init__'] = init
    words = lambda e, s, x: e.val(s, x).fields['words'].t
    eng.callees[DG + '.istree'] = lambda e, s, a, k: [(s, B(tree(words(e, s, a[0]))))]
    def nodes(e, s, a, k):
        w = words(e, s, a[0])
        v = Family(TList(NODEVIEW), 'nodes_of', [SENT.sort]).at([w])
        one = eng.uf('a_word', SENT.sort, Int)(w)
        d = v.get(one).items[1]
        e.assume(s, v.n >= 0, rng(one, v.n), d.dom(S('lid')), d.val(S('lid')).t >= 1)       # a sentence has a word, on some line
        return [(s, e.alloc(s, v))]
    eng.callees[DG + '.nodes'] = nodes
    def match(e, s, a, k):
        m = e.val(s, a[1] if len(a) > 1 else k['macro'])
        w = words(e, s, a[0])
        e.oblige(s, 'only trees are matched', tree(w))
        key = TupV([I(place(w)), I(number(m.t))])
        e.setitem(s, done, key, I(e.val(s, done).val(key).t + 1))
        return [(s, NONEV)]
    eng.callees[SG + '.match_pattern'] = match
    def state(V, f): return forall([INT, INT], lambda q, i: z3.Implies(z3.And(rng(q.t, sents.n), rng(i.t, ml.n)), V.read(done).val(TupV([q, i])).t == z3.If(z3.And(tree(sents.get(q.t).t), f(q.t, i.t)), 1, 0)))
    def inner(V):
        now = getg(eng, V.st, g, 'now')
        return z3.And(rng(now, sents.n), state(V, lambda q, i: z3.Or(q < now, z3.And(q == now, i < V.i))))
    eng.generic = [('sentences so far', lambda V: state(V, lambda q, i: q < V.i)), ('templates so far', inner), ('same sentence', lambda V: getg(eng, V.st, g, 'now') == getg(eng, V.st0, g, 'now'))]
    for s, r in T.normal(T.call(DH + '.update_dep_rel_' + mode, [h, fn, ms])):
        d = T.snap(done, s)
        T.post(s, 'every sentence that is a tree is matched once against every template', forall([INT, INT], lambda q, i: z3.Implies(z3.And(rng(q.t, sents.n), rng(i.t, ml.n)), d.val(TupV([q, i])).t == z3.If(tree(sents.get(q.t).t), 1, 0))))
        T.unchanged(s, 'the templates are unchanged', ms)


@contract(['P25', 'P26'], DH + '._do_process_job')
def _(T):
    eng = T.eng
    Int = z3.IntSort()
    ms, ml, _n = macros_of(T)
    number = eng.uf('macro.number', MACRO.sort, Int)
    fn = T.sym(STR, 'fname')
    tg, td, _ = vocab0(T, 'targets')
    h = T.obj(DH, macros=ms, targets=tg)
    cp = eng.uf('macro.copy', MACRO.sort, MACRO.sort)
    m = z3.Const('m!cp', MACRO.sort)
    T.pre(foralli(ml.n, lambda i: number(cp(ml.get(i).t)) == i))
    copies = ListV(ml.n, lambda i: P(MACRO, cp(ml.get(i).t)), MACRO)
    def dc(e, s, a, k):
        if not same_ref(a[0], ms): raise Unsupported('another copy')
        return e.alloc(s, copies)
    eng.ext['copy.deepcopy'] = dc
    FILT = TU('Filter')
    flt = T.sym(FILT, 'filter')
    def copied(e, s, a, k):
        e.oblige(s, 'the filter is made of the targets', z3.BoolVal(same_ref(a[0], tg)))
        return [(s, flt)]
    eng.callees[VOC + '.deepcopy'] = eng.callees[VOC + '.copy'] = copied
    done = T.new(DictV(INT, BOOL, lambda k: z3.BoolVal(True), lambda k: B(False)), 'filtered')
    def setattr_(e, s, m, a, k):
        mv = e.val(s, m)
        e.oblige(s, 'templates of the handler are left alone', exists([INT], lambda i: z3.And(rng(i.t, ml.n), mv.t == cp(ml.get(i.t).t))))
        if z3.is_true(z3.simplify(a[0].t == S('target_filter').t)):
            x = e.val(s, a[1])
            e.oblige(s, 'the filter of a template holds the targets', eqv(x, flt) if isinstance(x, P) and x.ty == FILT else z3.BoolVal(same_ref(a[1], tg)))
            e.setitem(s, done, I(number(mv.t)), B(True))
        return NONEV
    eng.methods[('Macro', '__setattr__')] = setattr_
    g = T.obj('ghost:Ghost', runs=I(0))
    def upd(e, s, a, k):
        b = dict(zip(('self', 'fname', 'macros'), a)); b.update(k)
        v = e.snap(s, b['macros'])
        e.oblige(s, 'the file of the job is matched', eqv(e.val(s, b['fname']), fn))
        e.oblige(s, 'against copies of all templates', eqv(v, copies))
        d = e.val(s, done)
        e.oblige(s, 'each with the targets as its filter', foralli(ml.n, lambda i: d.val(I(i)).t))
        setg(e, s, g, runs=getg(e, s, g, 'runs') + 1)
        return [(s, NONEV)]
    eng.callees[DH + '.update_dep_rel'] = upd
    eng.generic = [('filters so far', lambda V: foralli(V.i, lambda i: z3.Implies(i < ml.n, V.read(done).val(I(i)).t)))]
    for s, r in T.normal(T.call(DH + '._do_process_job', [h, fn])):
        T.post(s, 'the file is matched once', getg(eng, s, g, 'runs') == 1)
        T.post(s, 'the result are the templates with their matches', eqv(T.snap(r, s), copies))
        T.unchanged(s, 'the templates of the handler are unchanged', ms)


@contract(['P25', 'P26'], DH + '._worker_loop')
def _(T):
    eng = T.eng
    from contracts.corpus import Jobs, jobs_in_step
    g = T.obj('ghost:Ghost', taken=I(0), put=I(0))
    J = Jobs(T, g)
    fam = Family(TList(MACRO), 'tally', [STR.sort])
    def job(e, s, a, k):
        f = e.val(s, a[1])
        f = f.val if isinstance(f, OptV) else f
        v = fam.at([f.t])
        e.assume(s, v.n >= 0)
        return [(s, e.alloc(s, v))]
    eng.callees[DH + '._do_process_job'] = job
    eng.methods[('Macro', '__delattr__')] = lambda e, s, m, a, k: e.oblige(s, 'only the filter is dropped', a[0].t == S('target_filter').t)
    def put(e, s, a, k):
        n = getg(e, s, g, 'put')
        v = e.snap(s, a[0])
        e.oblige(s, 'the result put for a file holds its matches', eqv(v, fam.at([J.name(n).t])) if isinstance(v, ListV) else z3.BoolVal(False))
        setg(e, s, g, put=n + 1)
        return NONEV
    q = T.obj('ghost:Queue', put=ConcV('pyfn', f=put))
    eng.generic = jobs_in_step(eng, g, J, 'put')
    for s, r in T.normal(T.call(DH + '._worker_loop', [T.obj(DH), J.ref, q])):
        T.post(s, 'one result for every job up to the end marker', z3.And(getg(eng, s, g, 'taken') == J.M + 1, getg(eng, s, g, 'put') == J.M))


@contract('P26', DH + '.build_dependency')
def _(T):
    eng = T.eng
    from contracts.drivers import use_files, use_process
    Int = z3.IntSort()
    ms, ml, _n = macros_of(T)
    number = eng.uf('macro.number', MACRO.sort, Int)
    h = T.obj(DH, macros=ms)
    fn, files = T.sym(STR, 'fnames'), T.new(TList(STR), 'files')
    use_files(T, h, fn, files)
    reset = {f: T.new(DictV(INT, BOOL, lambda k: z3.BoolVal(True), lambda k: B(False)), 'reset.' + f) for f in ('nodes', 'edges')}
    ran = T.obj('ghost:Ghost', done=I(0))
    def setattr_(e, s, m, a, k):
        mv = e.val(s, m)
        for f in reset:
            if z3.is_true(z3.simplify(a[0].t == S('matched_' + f).t)):
                v = e.snap(s, a[1])
                e.oblige(s, 'the matches of a run are kept', getg(e, s, ran, 'done') == 0)
                e.setitem(s, reset[f], I(number(mv.t)), B(isinstance(v, ListV) and v.items is not None and not v.items))
        return NONEV
    eng.methods[('Macro', '__setattr__')] = setattr_
    def before(e, s):
        for f in reset: e.oblige(s, 'no match of an earlier run is left: ' + f, foralli(ml.n, lambda i: e.val(s, reset[f]).val(I(i)).t))
        setg(e, s, ran, done=z3.IntVal(1))
    g = use_process(T, h, files, NONEV, before)
    eng.callees[DH + '.process'] = eng.callees['nephosem.core.handler:Paralleler.process']
    mx = T.sym(TU('Matrix'), 'matrix')
    def build(e, s, a, k):
        e.oblige(s, 'the matrix is made after the run', getg(e, s, g, 'runs') == 1)
        return [(s, mx)]
    eng.callees[DH + '.build_matrix_by_matches'] = build
    eng.generic = [(f, lambda V, f=f: foralli(V.i, lambda i: z3.Implies(i < ml.n, V.read(reset[f]).val(I(i)).t))) for f in reset]
    for s, r in T.normal(T.call(DH + '.build_dependency', [h, fn])):
        T.post(s, 'the result is the matrix of the matches', eqv(eng.val(s, r), mx))
        T.post(s, 'the files are processed once', getg(eng, s, g, 'runs') == 1)


@contract('P26', DH + '.process')
def _(T):
    eng = T.eng
    from contracts.drivers import use_process
    files = T.new(TList(STR), 'files')
    h = T.obj(DH)
    g = use_process(T, h, files, NONEV)
    for s, r in T.normal(T.call(DH + '.process', [h, files])):
        T.post(s, 'the files are processed once', getg(eng, s, g, 'runs') == 1)
