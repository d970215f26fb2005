"""Contracts of the corpus formatter and of the word, type and token records (P05)."""
import z3
from pydv.task import *
from pydv import values as V
from pydv.lib import RE, MATCH

TM = 'nephosem.core.terms'
CF = TM + ':CorpusFormatter'
ITEM, TYPE, TOKEN = TM + ':ItemNode', TM + ':TypeNode', TM + ':TokenNode'


def rng(i, n): return z3.And(0 <= i, i < n)


def strings(T):
    """facts about strings the contracts use: a common prefix can be cancelled"""
    a, b, c = z3.Consts('sa sb sc', STR.sort)
    cat = T.eng.cat
    T.eng.axioms.append(z3.ForAll([a, b, c], z3.Implies(cat(a, b) == cat(a, c), b == c), patterns=[z3.MultiPattern(cat(a, b), cat(a, c))]))


def group(eng): return eng.uf('match_group', MATCH.sort, z3.IntSort(), STR.sort)


def all_in(part, names):
    j = z3.FreshConst(z3.IntSort(), 'j')
    x = part.get(j)
    return z3.ForAll([j], z3.Implies(rng(j, part.n), z3.Or(*[eqv(x, S(n)) for n in names])), patterns=[x.t])


CONF = [(c, b) for c in ('global-columns', 'line-format') for b in ('separator-line-machine', 'single-boundary-machine', 'left-right')]


@contract('P05', CF + '.__init__', params=[c + (k,) for c in CONF for k in ('colloc given', 'no colloc')])
def _(T, param):
    colkey, bound, coll = param
    eng = T.eng
    strings(T)
    eng.dyn_classes.add(CF)
    colstr, ty, tok, col = [T.sym(STR, n) for n in ('columns', 'type', 'token', 'colloc')]
    d = {'line-machine': T.sym(STR, 'line'), 'type': ty, 'token': tok, colkey: colstr}
    if coll == 'colloc given': d['colloc'] = col
    if bound == 'left-right': d.update({'boundary-detection-mechanism': S('left-right'), 'left-boundary-machine': T.sym(STR, 'lb'), 'right-boundary-machine': T.sym(STR, 'rb')})
    else: d.update({'boundary-detection-mechanism': S('single'), bound: T.sym(STR, 'sep')})
    cols = T.strcall(colstr, 'split', S(','))
    j, k = z3.Ints('j k')
    T.pre(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < cols.n), cols.get(j).t != cols.get(k).t)))
    parts = {'_type': T.strcall(ty, 'split', S('/')), '_token': T.strcall(tok, 'split', S('/')),
             '_colloc': T.strcall(col if coll == 'colloc given' else ty, 'split', S('/'))}
    def listed(f):
        p = parts[f]
        n = p.n - 2 if f == '_token' else p.n
        return p, z3.If(n > 0, n, z3.IntVal(0))
    for f in parts:
        p, n = listed(f)
        T.pre(forall([INT], lambda j: z3.Implies(rng(j.t, n), exists([INT], lambda k: z3.And(rng(k.t, cols.n), eqv(cols.get(k.t), p.get(j.t)))))))
    settings = T.new(CDictV(d), 'settings')
    for s, r in T.normal(T.construct(CF, [settings])):
        o = eng.val(s, r)
        for f in parts:
            p, n = listed(f)
            v = T.snap(o.fields[f], s)
            x = lambda j: v.get(j).t
            T.post(s, '%s: one column for every part of the format' % f, v.n == n)
            T.post(s, '%s: the column named by the part, counted from 1' % f,
                   forall([INT], lambda j: z3.Implies(rng(j.t, n), z3.And(rng(x(j.t) - 1, cols.n), eqv(cols.get(x(j.t) - 1), p.get(j.t))))))
        dyn = T.snap(o.fields['*dyn'], s)
        if isinstance(dyn, DictV):
            nm = lambda j: P(STR, eng.concat([S('_').t, cols.get(j).t]))
            T.post(s, 'every column is looked up at its own position', forall([INT], lambda j: z3.Implies(rng(j.t, cols.n), z3.And(dyn.dom(nm(j.t)), dyn.val(nm(j.t)).t == j.t + 1))))
        else: T.post(s, 'every column is looked up at its own position', cols.n == 0)
        T.post(s, 'the formats are kept', z3.And(eqv(eng.val(s, o.fields['type_format']), ty), eqv(eng.val(s, o.fields['token_format']), tok),
                                                  eqv(eng.val(s, o.fields['colloc_format']), d.get('colloc', ty))))
        rx = eng.uf('re_compile', STR.sort, RE.sort)
        T.post(s, 'lines are matched against the configured pattern', eqv(o.fields['line_machine'], P(RE, rx(d['line-machine'].t))))
        if bound != 'left-right': T.post(s, 'separators are matched against the configured pattern', eqv(o.fields['_single_bound_machine'], P(RE, rx(d[bound].t))))
        T.post(s, 'settings are copied', z3.BoolVal(not (isinstance(o.fields['settings'], Ref) and o.fields['settings'].cell == settings.cell)))


def formatter(T, **fields):
    return T.obj(CF, **dict({'match': NONEV}, **fields))


def cols_list(T, name):
    r = T.new(TList(INT), name)
    return r, T.snap(r)


def joined(T, s, n, f):
    """'/'.join(f(0), ..., f(n-1))"""
    return T.eng.norm(s, T.eng.methods[('str', 'join')](T.eng, s, S('/'), [T.eng.alloc(s, ListV(n, f, STR))], {}))[0][1]


@contract('P05', CF + '.get_type', params=('get_type', 'get_colloc', 'get_token'), label='CorpusFormatter.field strings')
def _(T, m):
    eng = T.eng
    r, v = cols_list(T, 'cols')
    h = formatter(T, **{{'get_type': '_type', 'get_colloc': '_colloc', 'get_token': '_token'}[m]: r})
    mt, fid, lid = T.sym(MATCH, 'm'), T.sym(STR, 'fid'), T.sym(STR, 'lid')
    g = group(eng)
    args = [h, mt] + ([fid, lid] if m == 'get_token' else [])
    for s, res in T.normal(T.call(CF + '.' + m, args)):
        if m == 'get_token': want = joined(T, s, v.n + 2, lambda j: ite(j < v.n, P(STR, g(mt.t, v.get(j).t)), ite(j == v.n, fid, lid)))
        else: want = joined(T, s, v.n, lambda j: P(STR, g(mt.t, v.get(j).t)))
        T.post(s, 'the string is made of exactly the configured fields in the configured order', eqv(eng.val(s, res), want))
        T.unchanged(s, 'the formatter is unchanged', r)


@contract('P05', CF + '.get', params=('type', 'colloc', 'token', 'word', 'lemma', 'pos', 'any'))
def _(T, column):
    eng = T.eng
    strings(T)
    dyn = T.new(TDict(STR, INT), 'columns')
    d = T.snap(dyn)
    h = formatter(T, **{'*dyn': dyn})
    mt, fid, lid = T.sym(MATCH, 'm'), T.sym(STR, 'fid'), T.sym(STR, 'lid')
    f = {}
    for n in ('get_type', 'get_colloc', 'get_token'):
        def mk(n):
            def c(e, s, a, k):
                ts = [e.val(s, x).t for x in a[1:]]
                return [(s, P(STR, e.uf('the.' + n, *([t.sort() for t in ts] + [STR.sort]))(*ts)))]
            return c
        eng.callees[CF + '.' + n] = mk(n)
    col = T.sym(STR, 'column') if column == 'any' else S(column)
    if column == 'any':
        for n in ('type', 'colloc', 'token'): T.pre(z3.Not(eqv(col, S(n))))
    named = lambda n, *ts: P(STR, eng.uf('the.get_' + n, *([t.sort() for t in ts] + [STR.sort]))(*ts))
    for s, res in T.normal(T.call(CF + '.get', [h, mt, col, fid, lid])):
        if column in ('type', 'colloc'): want = named(column, mt.t)
        elif column == 'token': want = named(column, mt.t, fid.t, lid.t)
        else:
            k = P(STR, eng.concat([S('_').t, col.t]))
            want = P(STR, group(eng)(mt.t, z3.If(d.dom(k), d.val(k).t, 0)))
        T.post(s, 'the field of the named column (0, the whole line, when there is no such column)', eqv(eng.val(s, res), want))


@contract('P05', CF + '.match_line')
def _(T):
    eng = T.eng
    rx, sx, line = T.sym(RE, 'rx'), T.sym(RE, 'sx'), T.sym(STR, 'line')
    h = formatter(T, line_machine=rx, _single_bound_machine=sx)
    for m, r in (('match_line', rx), ('separator_line_machine', sx), ('single_bound_machine', sx)):
        want = eng.norm(T.st, eng.methods[('Regex', 'match')](eng, T.st, r, [line], {}))[0][1]
        for s, res in T.normal(T.call(CF + '.' + m, [h, line])):
            T.post(s, m + ': the line is matched against the configured pattern', eqv(eng.val(s, res), want))


# ------------------------------------------------------------------------------------------- word records
NAMES = ('word', 'lemma', 'pos')


def field_of(eng, col): return eng.uf('field_of', MATCH.sort, STR.sort, STR.sort)


def use_get(T):
    """callee contract of CorpusFormatter.get: the field of the named column, a function of match and name"""
    def get(e, s, a, k):
        m, c = e.val(s, a[1]), e.val(s, k.get('column', a[2] if len(a) > 2 else None))
        if isinstance(m, OptV): m = m.val
        return [(s, P(STR, field_of(e, c)(m.t, c.t)))]
    T.eng.callees[CF + '.get'] = get


def a_formatter(T):
    s = {n: T.sym(STR, n) for n in ('type', 'colloc', 'token')}
    return formatter(T, settings=T.new(CDictV(s), 'settings'), type_format=s['type'], colloc_format=s['colloc'], token_format=s['token']), s


def fields_join(T, s, fmt, val):
    """'/'.join of the named values, in the order of the format"""
    p = T.strcall(fmt, 'split', S('/'))
    def get(j):
        x = p.get(j)
        r = val('pos')
        for n in ('lemma', 'word'): r = ite(eqv(x, S(n)), val(n), r)
        return r
    return joined(T, s, p.n, get)


@contract('P05', ITEM + '.__init__', params=('match', 'named', 'extras'))
def _(T, mode):
    eng = T.eng
    use_get(T)
    h, f = a_formatter(T)
    w = {n: T.sym(STR, n + '!') for n in NAMES}
    mt = T.sym(MATCH, 'm')
    fid, lid = T.sym(STR, 'fid'), T.sym(INT, 'lid')
    if mode == 'named': kw = dict(w, type_fmt=f['type'], colloc_fmt=f['colloc'])
    else: kw = dict(match=mt, formatter=h)
    if mode == 'extras': kw.update(fid=fid, lid=lid)
    for s, r in T.normal(T.construct(ITEM, [], kw)):
        o = eng.val(s, r).fields
        for n in NAMES:
            want = w[n] if mode == 'named' else P(STR, field_of(eng, None)(mt.t, S(n).t))
            T.post(s, 'the record holds the field ' + n, eqv(eng.val(s, o[n]), want))
        T.post(s, 'the record holds the formats', z3.And(eqv(eng.val(s, o['type_fmt']), f['type']), eqv(eng.val(s, o['colloc_fmt']), f['colloc'])))
        if mode == 'extras': T.post(s, 'the record holds file and line', z3.And(eqv(eng.val(s, o['fid']), fid), eqv(eng.val(s, o['lid']), lid)))


def item(T, **extra):
    w = {n: T.sym(STR, n + '!') for n in NAMES}
    f = {n: T.sym(STR, n) for n in ('type_fmt', 'colloc_fmt')}
    return T.obj(ITEM, **dict(w, **dict(f, **extra))), w, f


@contract('P05', ITEM + '.to_type', params=[(m, g) for m in ('type', 'colloc') for g in ('own format', 'given format')], label='ItemNode strings')
def _(T, param):
    m, given = param
    eng = T.eng
    h, w, f = item(T)
    fmt = T.sym(STR, 'fmt') if given == 'given format' else f[m + '_fmt']
    T.pre(fmt.t != S('').t)
    T.pre(all_in(T.strcall(fmt, 'split', S('/')), NAMES))
    for s, r in T.normal(T.call(ITEM + '.to_' + m, [h] + ([fmt] if given == 'given format' else []))):
        T.post(s, 'the string is made of the named fields in the order of the format', eqv(eng.val(s, r), fields_join(T, s, fmt, lambda n: w[n])))


def split_join(T):
    """facts about split and join: joining the parts of a split gives the string back"""
    x = z3.Const('sj', STR.sort)
    return x


@contract('P05', TYPE + '.__init__', params=('string', 'fields', 'match'))
def _(T, mode):
    eng = T.eng
    use_get(T)
    h, f = a_formatter(T)
    ts, fmt = T.sym(STR, 'type_str'), T.sym(STR, 'type_fmt')
    w = {n: T.sym(STR, n + '!') for n in NAMES}
    mt = T.sym(MATCH, 'm')
    if mode == 'string':
        ep, fp = T.strcall(ts, 'split', S('/')), T.strcall(fmt, 'split', S('/'))
        T.pre(z3.And(ts.t != S('').t, fmt.t != S('').t, ep.n == fp.n, ep.n >= 1))
        T.pre(all_in(fp, NAMES))
        j, k = z3.Ints('j k')
        T.pre(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < fp.n), fp.get(j).t != fp.get(k).t)))
        kw = dict(type_str=ts, type_fmt=fmt)
    elif mode == 'fields':
        T.pre(fmt.t != S('').t); T.pre(w['word'].t != S('').t)
        kw = dict(w, type_fmt=fmt)
    else:
        fmt = f['type']
        kw = dict(match=mt, formatter=h)
    for s, r in T.normal(T.construct(TYPE, [], kw)):
        o = eng.val(s, r).fields
        if mode == 'string':
            T.post(s, 'every part of the type string is the field the format names', forall([INT], lambda j: z3.Implies(rng(j.t, fp.n), z3.And(*[
                z3.Implies(eqv(fp.get(j.t), S(n)), has_value(eng.val(s, o[n]), ep.get(j.t))) for n in NAMES]))))
        else:
            for n in NAMES:
                T.post(s, 'the record holds the field ' + n, eqv(eng.val(s, o[n]), w[n] if mode == 'fields' else P(STR, field_of(eng, None)(mt.t, S(n).t))))
        T.post(s, 'the record holds the format', eqv(eng.val(s, o['format']), fmt))
        tk = T.snap(o['tokens'], s)
        T.post(s, 'there are no tokens yet', tk.n == 0)


def has_value(v, x):
    if isinstance(v, OptV): return z3.And(z3.Not(v.isnone), eqv(v.val, x))
    if isinstance(v, NoneV): return z3.BoolVal(False)
    return eqv(v, x)


@contract('P05', TYPE + '.type', params=('TypeNode', 'TokenNode'), label='TypeNode.type and TokenNode.token')
def _(T, cls):
    eng = T.eng
    w = {n: T.sym(STR, n + '!') for n in NAMES + (('fid', 'lid') if cls == 'TokenNode' else ())}
    fmt = T.sym(STR, 'fmt')
    p = T.strcall(fmt, 'split', S('/'))
    T.pre(all_in(p, list(w)))
    h = T.obj(TM + ':' + cls, **dict(w, format=fmt))
    def get(j):
        x = p.get(j)
        r = None
        for n in w: r = w[n] if r is None else ite(eqv(x, S(n)), w[n], r)
        return r
    for m in (('type' if cls == 'TypeNode' else 'token'), '__str__'):
        for s, r in T.normal(T.call(TM + ':%s.%s' % (cls, m), [h])):
            T.post(s, m + ': the named fields in the order of the format', eqv(eng.val(s, r), joined(T, s, p.n, get)))


@contract('P05', TOKEN + '.__init__', params=('string', 'fields', 'match'))
def _(T, mode):
    eng = T.eng
    use_get(T)
    h, f = a_formatter(T)
    ts, fmt = T.sym(STR, 'token_str'), T.sym(STR, 'token_fmt')
    names = NAMES + ('fid', 'lid')
    w = {n: T.sym(STR, n + '!') for n in names}
    mt = T.sym(MATCH, 'm')
    lc, rc = T.new(TList(TU('Item')), 'left'), T.new(TList(TU('Item')), 'right')
    lid = T.sym(INT, 'line')
    if mode == 'string':
        ep, fp = T.strcall(ts, 'split', S('/')), T.strcall(fmt, 'split', S('/'))
        T.pre(z3.And(ts.t != S('').t, fmt.t != S('').t, ep.n == fp.n, ep.n >= 1))
        T.pre(all_in(fp, names))
        j, k = z3.Ints('j k')
        T.pre(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < fp.n), fp.get(j).t != fp.get(k).t)))
        kw = dict(token_str=ts, token_fmt=fmt)
    elif mode == 'fields':
        T.pre(fmt.t != S('').t); T.pre(w['word'].t != S('').t)
        kw = dict({n: w[n] for n in NAMES}, token_fmt=fmt, fid=w['fid'], lid=lid)
    else:
        fmt = f['token']
        kw = dict(match=mt, formatter=h, fid=w['fid'], lid=lid)
    for s, r in T.normal(T.construct(TOKEN, [], dict(kw, lcollocs=lc, rcollocs=rc))):
        o = eng.val(s, r).fields
        if mode == 'string':
            T.post(s, 'every part of the token string is the field the format names', forall([INT], lambda j: z3.Implies(rng(j.t, fp.n), z3.And(*[
                z3.Implies(eqv(fp.get(j.t), S(n)), has_value(eng.val(s, o[n]), ep.get(j.t))) for n in names]))))
        else:
            for n in NAMES:
                T.post(s, 'the record holds the field ' + n, eqv(eng.val(s, o[n]), w[n] if mode == 'fields' else P(STR, field_of(eng, None)(mt.t, S(n).t))))
            T.post(s, 'the record holds the file', eqv(eng.val(s, o['fid']), w['fid']))
            T.post(s, 'the record holds the line', eqv(eng.val(s, o['lid']), P(STR, eng.to_str(s, lid))))
        T.post(s, 'the record holds the format', eqv(eng.val(s, o['format']), fmt))
        T.post(s, 'the context words stay on their sides', z3.And(eqv(T.snap(o['lcollocs'], s), T.snap(lc)), eqv(T.snap(o['rcollocs'], s), T.snap(rc))))


TOKU = TU('TokenNode')
TNODE = TObj(TYPE, word=STR, lemma=STR, pos=STR, format=STR, tokens=TList(TOKU))


@contract(['P05', 'P09', 'P10'], TYPE + '.merge')
def _(T):
    eng = T.eng
    tns = T.new(TList(TNODE), 'tns')
    v = T.snap(tns)
    x = lambda j: v.get(j)
    T.pre(v.n >= 1)
    tstr = eng.uf('type_string', *([STR.sort] * 5))
    eng.callees[TYPE + '.type'] = lambda e, s, a, k: [(s, P(STR, tstr(*[e.val(s, e.val(s, a[0]).fields[n]).t for n in ('word', 'lemma', 'pos', 'format')])))]
    st_ = lambda o: tstr(*[o.fields[n].t for n in ('word', 'lemma', 'pos', 'format')])
    same = lambda j: z3.And(st_(x(j)) == st_(x(z3.IntVal(0))), x(j).fields['format'].t == x(z3.IntVal(0)).fields['format'].t)
    made = []
    def init(e, s, a, k):
        tk = e.snap(s, k['tokens']) if 'tokens' in k else None
        e.oblige(s, 'the merged record is of the common type', eqv(e.val(s, k['type_str']), P(STR, st_(x(z3.IntVal(0))))) if 'type_str' in k else z3.BoolVal(False))
        e.oblige(s, 'the merged record keeps the format', eqv(e.val(s, k['type_fmt']), x(z3.IntVal(0)).fields['format']) if 'type_fmt' in k else z3.BoolVal(False))
        s.heap[a[0].cell] = ObjV(TYPE, {'tokens': k['tokens']} if tk is not None else {})
        return [(s, NONEV)]
    eng.callees[TYPE + '.__init__'] = init
    for s, r in T.normal(T.call(TYPE + '.merge', [tns]), raises={'ValueError': exists([INT], lambda j: z3.And(rng(j.t, v.n), z3.Not(same(j.t))))}):
        tk = T.snap(eng.val(s, r).fields['tokens'], s)
        offs = [f for f in getattr(eng, 'flats', {}).values() if len(f) == 2]
        if not offs: T.post(s, 'the tokens are those of all records, one after the other', z3.BoolVal(False)); continue
        off = offs[0][0]
        ln = lambda j: x(j).fields['tokens'].n
        T.post(s, 'no token is lost or added', z3.And(off(0) == 0, tk.n == off(v.n)))
        T.post(s, 'no token is lost or added: counted record by record', forall([INT], lambda j: z3.Implies(rng(j.t, v.n), off(j.t + 1) == off(j.t) + ln(j.t))))
        T.post(s, 'the tokens are those of all records, one after the other', forall([INT, INT], lambda j, k: z3.Implies(z3.And(rng(j.t, v.n), rng(k.t, ln(j.t))),
               eqv(tk.get(off(j.t) + k.t), x(j.t).fields['tokens'].get(k.t)))))
        T.post(s, 'only records of one type are merged', forall([INT], lambda j: z3.Implies(rng(j.t, v.n), same(j.t))))
        T.unchanged(s, 'the records are unchanged', tns)
