"""Contracts of Python builtins and standard-library functions used by nephosem (assumed, listed in the evidence)."""
import z3
from .values import *
from . import values as V
from .engine import *
from .engine import forall_pat, mentions_const
from . import loops as L


def kwarg(args, kwargs, pos, name, default=None):
    if len(args) > pos: return args[pos]
    return kwargs.get(name, default)


def flat_maybe(v):
    try: return [t for t in flat(v) if z3.is_app(t) and t.num_args()]
    except Unsupported: return []


def as_list(eng, st, x):
    """list content (by value) of any iterable"""
    v = eng.val(st, x)
    if isinstance(v, ListV): return eng.snap(st, v)
    iv = eng.iterview(st, x)
    if iv.items is not None:
        r = clist([eng.snap(st, y) for y in iv.items])
        return r
    def get(i):
        try: e = iv.get(i, st)
        except TypeError: e = iv.get(i)
        return eng.snap(st, e)
    r = ListV(iv.n, get, typeof(get(z3.FreshConst(z3.IntSort(), 'i'))))
    dom = getattr(v, 'dom', None)
    if isinstance(v, (DictV, SetV)) or dom is not None:
        r.mem = (lambda q: v.dom(q), [])
    return r


def view(n, get, items=None, dom=None):
    return ConcV('iter', view=IterView(n, get, items), dom=dom)


def iv_get(iv, i, st):
    if iv.items is not None:
        return clist(iv.items).get(i)
    try: return iv.get(i, st)
    except TypeError: return iv.get(i)


# ------------------------------------------------------------------------------------------- builtins
def b_len(eng, st, args, kw):
    x = args[0]
    v = eng.val(st, x)
    if isinstance(v, (ListV,)): return P(INT, v.n)
    if isinstance(v, TupV): return I(len(v.items))
    if isinstance(v, CDictV): return I(len(v.d))
    if isinstance(v, (DictV, SetV)): return P(INT, eng.enum_of(st, v)[0])
    if isinstance(v, P) and v.ty == STR:
        s = str_value(v.t)
        return I(len(s)) if s is not None else P(INT, eng.strlen(v.t))
    if isinstance(v, ObjV): return eng.call_method(st, x, '__len__', [], {})
    if isinstance(v, ConcV) and v.kind == 'iter': return P(INT, v.view.n)
    if isinstance(v, ConcV) and v.kind == 'range': return P(INT, eng.iterview(st, v).n)
    if isinstance(v, ArrV): return P(INT, v.shape[0])
    if isinstance(v, OptV):
        return eng.bind([(s, Exc('TypeError') if b else v.val) for s, b in eng.split(st, v.isnone)],
                        lambda s, y: eng.norm(s, b_len(eng, s, [y], kw)))
    h = eng.methods.get((eng.kind(v), '__len__'))
    if h: return h(eng, st, x, [], {})
    raise Unsupported('len of %r' % (v,))


def b_range(eng, st, args, kw):
    ts = []
    for a in args:
        w = eng.val(st, a)
        if not (isinstance(w, P) and w.ty in (INT, BOOL)): raise Unsupported('range of non-int')
        ts.append(to_int(w.t))
    if len(ts) == 1: lo, hi, step = z3.IntVal(0), ts[0], z3.IntVal(1)
    elif len(ts) == 2: lo, hi, step = ts[0], ts[1], z3.IntVal(1)
    else: lo, hi, step = ts
    return ConcV('range', lo=lo, hi=hi, step=step)


def b_enumerate(eng, st, args, kw):
    start = kwarg(args, kw, 1, 'start', I(0))
    iv = eng.iterview(st, args[0])
    s0 = eng.val(st, start).t
    if iv.items is not None:
        return view(iv.n, None, [TupV([I(z3.simplify(s0 + k)), x]) for k, x in enumerate(iv.items)])
    return view(iv.n, lambda i, s=None: TupV([I(s0 + i) if not tr(s0 == 0) else I(i), iv_get(iv, i, s)]))


def b_zip(eng, st, args, kw):
    ivs = [eng.iterview(st, a) for a in args]
    if all(iv.items is not None for iv in ivs):
        items = [TupV(list(t)) for t in zip(*[iv.items for iv in ivs])]
        return view(z3.IntVal(len(items)), None, items)
    n = ivs[0].n
    for iv in ivs[1:]:
        if not iv.n.eq(n) and not eng.known(st, iv.n == n): n = z3.If(iv.n < n, iv.n, n)
    return view(n, lambda i, s=None: TupV([iv_get(iv, i, s) for iv in ivs]))


def b_reversed(eng, st, args, kw):
    iv = eng.iterview(st, args[0])
    if iv.items is not None: return view(iv.n, None, list(reversed(iv.items)))
    return view(iv.n, lambda i, s=None: iv_get(iv, iv.n - 1 - i, s))


def b_list(eng, st, args, kw):
    if not args: return eng.alloc(st, clist([]))
    v = eng.val(st, args[0])
    if isinstance(v, OptV): raise Unsupported('list of optional')
    iv = None
    if isinstance(v, (ListV, TupV)) and v.items is not None: return eng.alloc(st, clist(list(v.items)))
    return eng.alloc(st, as_list(eng, st, args[0]))


def b_tuple(eng, st, args, kw):
    if not args: return TupV([])
    iv = eng.iterview(st, args[0])
    if iv.items is not None: return TupV(iv.items)
    # tuple of symbolic length: treated as an (immutable) list value
    return eng.alloc(st, as_list(eng, st, args[0]))


def b_set(eng, st, args, kw):
    if not args: return eng.alloc(st, SetV(None, lambda q: z3.BoolVal(False)))
    v = eng.val(st, args[0])
    if isinstance(v, CDictV) and not v.d: return eng.alloc(st, SetV(None, lambda q: z3.BoolVal(False)))
    if isinstance(v, CDictV): v = cdict_to_dict(eng.snap(st, v))
    if isinstance(v, (DictV, SetV)): return eng.alloc(st, SetV(v.k, v.dom))
    l = as_list(eng, st, args[0])
    if l.items is not None and not l.items: return eng.alloc(st, SetV(None, lambda q: z3.BoolVal(False)))
    if l.el is None: raise Unsupported('set of mixed values')
    flat_sorts(l.el)
    eng.member(st, l, dummy(l.el))
    return eng.alloc(st, SetV(l.el, lambda q: _mem(eng, l, q)))


def b_frozenset(eng, st, args, kw):
    """the elements as an immutable (hashable) value"""
    v = eng.val(st, args[0]) if args else None
    if isinstance(v, P) and isinstance(v.ty, TFset): return v
    s = eng.val(st, b_set(eng, st, args, kw))
    if s.k is None or not isinstance(s.k, TPrim): raise Unsupported('frozenset of unknown elements')
    q, cs = keyconst(s.k)
    if not hasattr(eng, 'flats'): eng.flats = {}
    ck = ('fset', z3.simplify(z3.substitute(s.dom(q), (cs[0], z3.Const('fs!q', s.k.sort)))).sexpr(), tuple(c.sexpr() for c in st.ctx))
    if ck not in eng.flats: eng.flats[ck] = eng.fresh_fn(st, 'fset', TFset(s.k).sort)
    a = eng.flats[ck]()
    m = TFset(s.k).mem
    eng.assume(st, z3.ForAll(cs, m(a, cs[0]) == s.dom(q), patterns=[m(a, cs[0])]), fset_is(eng, s.k)(a))
    return P(TFset(s.k), a)


def fset_is(eng, el):
    """marks the value of a frozen set; marked values with the same members are equal"""
    so, m = TFset(el).sort, TFset(el).mem
    f = eng.uf('is_fset_%s' % el, so, z3.BoolSort())
    done = eng.__dict__.setdefault('_fset_ax', set())
    if repr(el) not in done:
        done.add(repr(el))
        a, b = z3.Const('fs!a', so), z3.Const('fs!b', so)
        d = eng.uf('fset_diff_%s' % el, so, so, el.sort)(a, b)
        eng.axioms.append(z3.ForAll([a, b], z3.Implies(z3.And(f(a), f(b), m(a, d) == m(b, d)), a == b), patterns=[z3.MultiPattern(f(a), f(b))]))
    return f


def fset_set(v): return SetV(v.ty.el, lambda q: v.ty.mem(v.t, coerce(q, v.ty.el).t))


def fset_op(op):
    """operations of a frozen set that do not care that it is frozen"""
    def f(eng, st, r, a, k):
        v = eng.val(st, r)
        return eng.call_method(st, eng.alloc(st, fset_set(v)), op, list(a), dict(k))
    return f


def _mem(eng, l, q):
    if l.items is not None: return z3.Or(*[eqv(y, q) for y in l.items]) if l.items else z3.BoolVal(False)
    return l.mem[0](coerce(q, l.el))


def b_dict(eng, st, args, kw):
    if not args and not kw: return eng.alloc(st, CDictV({}))
    if args:
        v = eng.val(st, args[0])
        if isinstance(v, CDictV): r = CDictV(dict(v.d, **kw))
        elif isinstance(v, DictV) and not kw: r = DictV(v.k, v.v, v.dom, v.val, v.enum, None)
        elif isinstance(v, ConcV) or isinstance(v, ListV):
            return dict_of_pairs(eng, st, args[0])
        else: raise Unsupported('dict(%r)' % (v,))
        return eng.alloc(st, r)
    return eng.alloc(st, CDictV(kw))


def dict_of_pairs(eng, st, x):
    iv = eng.iterview(st, x)
    if iv.items is not None:
        r = eng.alloc(st, CDictV({}))
        rs = [(st, r)]
        for p in iv.items:
            nx = []
            for s, _ in rs:
                q = eng.iterview(s, p).items
                nx += [(s2, e if isinstance(e, Exc) else r) for s2, e in eng.setitem(s, r, q[0], q[1])]
            rs = nx
        return rs
    ref = eng.alloc(st, CDictV({}))
    def body(s, elem):
        q = eng.iterview(s, elem).items
        return [((('raise', e) if isinstance(e, Exc) else ('next',)), s2) for s2, e in eng.setitem(s, ref, q[0], q[1])]
    return [(s, ref) if oc[0] == 'exhausted' else (s, oc[1]) for oc, s in L.summarise(eng, st, iv, body, None)]


def sort_view(eng, st, lst, keyfn, reverse):
    """stable sort: a fresh permutation with its inverse, ordered keys, ties kept in the original order"""
    n = lst.n
    perm = eng.fresh_fn(st, 'perm', z3.IntSort(), z3.IntSort())
    inv = eng.fresh_fn(st, 'perminv', z3.IntSort(), z3.IntSort())
    j, h = z3.FreshConst(z3.IntSort(), 'j'), z3.FreshConst(z3.IntSort(), 'h')
    eng.assume(st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= perm(j), perm(j) < n, inv(perm(j)) == j)),
                             patterns=[perm(j)]),
               z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= inv(j), inv(j) < n, perm(inv(j)) == j)),
                         patterns=[inv(j)]))
    # every element's position is reachable: trigger inv on the elements of the source
    k = z3.FreshConst(z3.IntSort(), 'k')
    trig = []
    trig = L.elem_terms(lst.get(k), k)
    if trig:
        eng.assume(st, forall_pat([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= inv(k), inv(k) < n, perm(inv(k)) == k)),
                                  trig[:1]))
    a, b = keyfn(lst.get(perm(j))), keyfn(lst.get(perm(h)))
    lt = eng.less(st, a, b)
    gt = eng.less(st, b, a)
    wrong = lt if reverse else gt
    tie = z3.And(z3.Not(lt), z3.Not(gt))
    eng.assume(st, z3.ForAll([j, h], z3.Implies(z3.And(0 <= j, j < h, h < n),
                                                z3.And(z3.Not(wrong), z3.Implies(tie, perm(j) < perm(h)))),
                             patterns=[z3.MultiPattern(perm(j), perm(h))]))
    r = ListV(n, lambda i: lst.get(perm(i)), lst.el)
    r.perm = (perm, inv)
    m = getattr(lst, 'mem', None)
    if m: r.mem = m
    return r


def b_sorted(eng, st, args, kw):
    key = kw.get('key', NONEV)
    rev = kw.get('reverse', B(False))
    lst = as_list(eng, st, args[0])
    out = []
    for s, rv in eng.split(st, eng.truth(st, rv_(rev))):
        if lst.items is not None and len(lst.items) <= 1:
            out.append((s, eng.alloc(s, lst))); continue
        if lst.items is not None: lst = ListV(lst.n, lst.get, lst.el)
        kf = key_function(eng, s, key)
        out.append((s, eng.alloc(s, sort_view(eng, s, lst, kf, rv))))
    return out


def rv_(x): return x


def key_function(eng, st, key):
    if isinstance(key, NoneV): return lambda v: v
    def f(v):
        probe = st.fork()
        rs = eng.call(probe, key, [box_all(eng, probe, v)], {})
        ok = [(s, r) for s, r in rs if not isinstance(r, Exc)]
        if len(ok) != len(rs): raise Unsupported('sort key may raise')
        r = None
        for s, x in ok:
            x = eng.snap(s, x)
            extra = s.pc[len(st.pc):]
            r = x if r is None else ite(z3.And(*extra) if extra else z3.BoolVal(True), x, r)
            st.facts = st.facts + tuple(q for q in s.facts[len(st.facts):])
        return r
    return f


def box_all(eng, st, v):
    if isinstance(v, MUT): return eng.alloc(st, v)
    if isinstance(v, TupV): return TupV([box_all(eng, st, x) for x in v.items])
    return v


def b_sum(eng, st, args, kw):
    start = kwarg(args, kw, 1, 'start', I(0))
    v = eng.val(st, args[0])
    if isinstance(v, ArrV): return eng.methods[('arr', 'builtin_sum')](eng, st, args[0])
    iv = eng.iterview(st, args[0])
    if iv.items is not None:
        r = start
        rs = [(st, start)]
        for x in iv.items: rs = eng.bind(rs, lambda s, acc: eng.binop(s, 'Add', acc, x))
        return rs
    i = z3.FreshConst(z3.IntSort(), 'i')
    e = eng.val(st, iv_get(iv, i, st))
    if not (isinstance(e, P) and e.ty in (INT, REAL, BOOL)): raise Unsupported('sum of %r' % (e,))
    t = to_int(e.t)
    d = eng.new_sum(list(st.ctx), i, t)
    val = P(REAL if e.ty == REAL else INT, d.at(list(st.ctx), iv.n))
    return eng.binop(st, 'Add', start, val) if not (is_conc(start) and conc(start) == 0) else val


def b_quant(isall):
    def f(eng, st, args, kw):
        iv = eng.iterview(st, args[0])
        if iv.items is not None:
            ts = [eng.truth(st, x) for x in iv.items]
            return B((z3.And if isall else z3.Or)(*ts) if ts else z3.BoolVal(isall))
        i = z3.FreshConst(z3.IntSort(), 'i')
        t = eng.truth(st, iv_get(iv, i, st))
        w = eng.fresh_fn(st, 'w', z3.IntSort())()
        b = eng.fresh_fn(st, 'q', z3.BoolSort())()
        cond = z3.Not(t) if isall else t
        body = z3.Implies(z3.And(0 <= i, i < iv.n, cond), b)
        trig = L.index_terms(cond, i)
        eng.assume(st, z3.Implies(b, z3.And(0 <= w, w < iv.n, z3.substitute(cond, (i, w)))),
                   forall_pat([i], body, trig[:1]))
        return B(z3.Not(b) if isall else b)
    return f


def b_minmax(ismin):
    def f(eng, st, args, kw):
        key = kw.get('key', NONEV)
        if len(args) > 1:
            r = args[0]
            for x in args[1:]:
                c = eng.less(st, x, r) if ismin else eng.less(st, r, x)
                r = ite(c, eng.val(st, x), eng.val(st, r))
            return r
        l = as_list(eng, st, args[0])
        if l.items is not None and l.items and isinstance(key, NoneV): return f(eng, st, l.items, {}) if len(l.items) > 1 else l.items[0]
        kf = key_function(eng, st, key)
        out = []
        for s, empty in eng.split(st, l.n == 0):
            if empty:
                out.append((s, kw['default'] if 'default' in kw else Exc('ValueError', 'empty'))); continue
            w = eng.fresh_fn(s, 'argm', z3.IntSort())()
            i = z3.FreshConst(z3.IntSort(), 'i')
            a, b = kf(l.get(w)), kf(l.get(i))
            bad = eng.less(s, b, a) if ismin else eng.less(s, a, b)
            trig = []
            try: trig = [x for t in flat(l.get(i)) for x in L.index_terms(t, i)]
            except Unsupported: pass
            eng.assume(s, 0 <= w, w < l.n, forall_pat([i], z3.Implies(z3.And(0 <= i, i < l.n), z3.Not(bad)), trig[:1]),
                       z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), eng.less(s, a, b) if ismin else eng.less(s, b, a))))
            out.append((s, box_all(eng, s, l.get(w))))
        return out
    return f


def b_abs(eng, st, args, kw):
    v = eng.val(st, args[0])
    if isinstance(v, ArrV): return eng.methods[('arr', 'map')](eng, st, args[0], lambda t: z3.If(t < 0, -t, t))
    return P(v.ty, z3.If(v.t < 0, -v.t, v.t))


PYTYPES = {'int': (INT, BOOL), 'float': (REAL,), 'str': (STR,), 'bool': (BOOL,)}


def pytype_of(eng, v):
    if isinstance(v, P):
        return {INT: 'int', REAL: 'float', STR: 'str', BOOL: 'bool'}.get(v.ty, v.ty.name)
    if isinstance(v, ListV): return 'list'
    if isinstance(v, (DictV, CDictV)): return 'defaultdict' if v.default is not None else 'dict'
    if isinstance(v, SetV): return 'set'
    if isinstance(v, TupV): return 'tuple'
    if isinstance(v, NoneV): return 'NoneType'
    if isinstance(v, ConcV): return v.kind
    if isinstance(v, ArrV):
        return {'nd': 'numpy.ndarray'}.get(v.kind, 'scipy.sparse.%s_matrix' % v.fmt)
    return None


def b_isinstance(eng, st, args, kw):
    v = eng.val(st, args[0])
    t = eng.val(st, args[1])
    ts = t.items if isinstance(t, TupV) else [t]
    if isinstance(v, OptV):
        out = []
        for s, b in eng.split(st, v.isnone):
            out += eng.norm(s, b_isinstance(eng, s, [NONEV if b else v.val, args[1]], kw))
        return out
    return B(any(inst(eng, v, x) for x in ts))


def inst(eng, v, x):
    if isinstance(x, ConcV):
        if x.kind == 'class':
            return isinstance(v, ObjV) and x.qual in eng.repo.mro(v.cls)
        name = x.name if x.kind in ('type', 'builtin') else (x.path if x.kind == 'ext' else None)
        if name is None: raise Unsupported('isinstance against %r' % (x,))
        pt = pytype_of(eng, v)
        short = name.split('.')[-1]
        if isinstance(v, P) and short in PYTYPES: return v.ty in PYTYPES[short]
        if short in ('Integral', 'integer'): return isinstance(v, P) and v.ty in (INT,)
        if short in ('basestring', 'string_types', 'text_type', 'unicode', 'six_str'): return isinstance(v, P) and v.ty == STR
        if short == 'binary_type' or short == 'bytes': return False
        if short == 'dict': return isinstance(v, (DictV, CDictV))
        if short in ('Iterable', 'Sequence'): return isinstance(v, (ListV, TupV)) or (isinstance(v, P) and v.ty == STR)
        if pt is not None and '.' in pt:
            if short in ('spmatrix',): return pt.startswith('scipy')
            if short in ('matrix',): return bool(v.extra.get('npmatrix'))
            if short == 'ndarray': return v.kind == 'nd'
            return pt.split('.')[-1] == short
        if pt is not None: return pt == short
        h = eng.methods.get((eng.kind(v), 'isinstance'))
        if h: return h(eng, v, name)
    raise Unsupported('isinstance(%r, %r)' % (v, x))


def b_type(eng, st, args, kw):
    v = eng.val(st, args[0])
    if isinstance(v, ObjV): return ConcV('class', qual=v.cls)
    t = pytype_of(eng, v)
    if t is None: raise Unsupported('type of %r' % (v,))
    return ConcV('type', name=t.split('.')[-1])


def b_str(eng, st, args, kw):
    if not args: return S('')
    v = eng.val(st, args[0])
    if isinstance(v, ObjV) and eng.repo.lookup_attr(v.cls, '__str__') is not None: return eng.call_method(st, args[0], '__str__', [], {})
    return P(STR, eng.to_str(st, args[0]))


def b_int(eng, st, args, kw):
    if not args: return I(0)
    v = eng.val(st, args[0])
    if isinstance(v, P):
        if v.ty in (INT, BOOL): return P(INT, to_int(v.t))
        if v.ty == REAL: return P(INT, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.ty == STR:
            s = str_value(v.t)
            if s is not None:
                try: return I(int(s))
                except ValueError: return Exc('ValueError')
            ok = eng.uf('is_int_str', StrSort, z3.BoolSort())(v.t)
            r = eng.uf('int_of_str', StrSort, z3.IntSort())(v.t)
            return [(s2, P(INT, r) if b else Exc('ValueError')) for s2, b in eng.split(st, ok)]
    raise Unsupported('int(%r)' % (v,))


def b_float(eng, st, args, kw):
    v = eng.val(st, args[0])
    if isinstance(v, P):
        if v.ty in (INT, BOOL, REAL): return P(REAL, to_real(v.t))
        if v.ty == STR:
            ok = eng.uf('is_float_str', StrSort, z3.BoolSort())(v.t)
            r = eng.uf('float_of_str', StrSort, z3.RealSort())(v.t)
            return [(s2, P(REAL, r) if b else Exc('ValueError')) for s2, b in eng.split(st, ok)]
    raise Unsupported('float(%r)' % (v,))


def b_bool(eng, st, args, kw):
    return [(s, B(b)) for s, b in eng.truth_split(st, args[0])]


def b_map(eng, st, args, kw):
    f = args[0]
    if len(args) != 2: raise Unsupported('map arity')
    return map_list(eng, st, f, args[1])


def map_list(eng, st, f, xs):
    iv = eng.iterview(st, xs)
    ref = eng.alloc(st, clist([]))
    if iv.items is not None:
        rs = [(st, NONEV)]
        for x in iv.items:
            def g(s, _, x=x):
                return eng.bind(eng.call(s, f, [x], {}), lambda s2, y: (eng.list_append(s2, ref, y), [(s2, NONEV)])[1])
            rs = eng.bind(rs, g)
        return [(s, e if isinstance(e, Exc) else ref) for s, e in rs]
    def body(s, elem):
        out = []
        for s2, y in eng.call(s, f, [elem], {}):
            if isinstance(y, Exc): out.append((('raise', y), s2))
            else:
                eng.list_append(s2, ref, y)
                out.append((('next',), s2))
        return out
    return [(s, ref) if oc[0] == 'exhausted' else (s, oc[1]) for oc, s in L.summarise(eng, st, iv, body, None)]


def b_filter(eng, st, args, kw):
    f, xs = args
    iv = eng.iterview(st, xs)
    if iv.items is not None: raise Unsupported('filter of concrete')
    ref = eng.alloc(st, clist([]))
    def body(s, elem):
        out = []
        for s2, y in (eng.call(s, f, [elem], {}) if not isinstance(f, NoneV) else [(s, elem)]):
            if isinstance(y, Exc): out.append((('raise', y), s2)); continue
            for s3, b in eng.truth_split(s2, y):
                if b: eng.list_append(s3, ref, elem)
                out.append((('next',), s3))
        return out
    return [(s, ref) if oc[0] == 'exhausted' else (s, oc[1]) for oc, s in L.summarise(eng, st, iv, body, None)]


def b_hasattr(eng, st, args, kw):
    v = eng.val(st, args[0])
    name = conc(args[1])
    if isinstance(v, ObjV): return B(name in v.fields or eng.repo.lookup_attr(v.cls, name) is not None)
    if isinstance(v, P) and v.ty == STR: return B(name in dir(str))
    if isinstance(v, (ListV, TupV, DictV, CDictV, SetV)):
        return B(name in dir({'list': list, 'tuple': tuple, 'dict': dict, 'set': set}[eng.kind(v)]))
    if isinstance(v, P): return B(name in dir({'int': int, 'real': float, 'bool': bool}.get(v.ty.name, object)))
    if isinstance(v, NoneV): return B(name in dir(None))
    raise Unsupported('hasattr')


def b_getattr(eng, st, args, kw):
    return eng.getattr(st, args[0], conc(args[1]))


def b_iter(eng, st, args, kw):
    r = eng.alloc(st, as_list(eng, st, args[0]))
    return r


def deepcopy(eng, st, args, kw):
    memo = {}
    def go(x):
        if isinstance(x, (Ref, Sub)):
            key = x.cell if isinstance(x, Ref) else repr(x)
            if key in memo: return memo[key]
            v = eng.read(st, x)
            if isinstance(v, ObjV): r = eng.alloc(st, ObjV(v.cls, {})); memo[key] = r; st.heap[r.cell] = ObjV(v.cls, {k: go(y) for k, y in v.fields.items()}); return r
            if isinstance(v, CDictV): r = eng.alloc(st, CDictV({k: go(y) for k, y in v.d.items()}, v.default))
            elif isinstance(v, ListV) and v.items is not None: r = eng.alloc(st, clist([go(y) for y in v.items]))
            else: r = eng.alloc(st, v)
            memo[key] = r
            return r
        if isinstance(x, TupV): return TupV([go(y) for y in x.items])
        if isinstance(x, OptV): return OptV(x.isnone, go(x.val))
        return x
    return go(args[0])


def shallow(eng, st, args, kw):
    x = args[0]
    v = eng.val(st, x)
    if isinstance(v, (ListV, DictV, CDictV, SetV)): return eng.alloc(st, v if not isinstance(v, CDictV) else CDictV(v.d, v.default))
    if isinstance(v, ObjV): return eng.alloc(st, ObjV(v.cls, v.fields))
    return x


def identity(eng, st, args, kw):
    return args[0] if args else kw.get('iterable')


def b_print(eng, st, args, kw): return NONEV


def itemgetter(eng, st, args, kw):
    idx = args
    def f(eng, s, a, k):
        if len(idx) == 1: return eng.getitem(s, a[0], idx[0])
        rs = [(s, [])]
        for ix in idx: rs = eng.bind(rs, lambda s1, acc: eng.bind(eng.getitem(s1, a[0], ix), lambda s2, v: [(s2, acc + [v])]))
        return [(s1, TupV(v) if not isinstance(v, Exc) else v) for s1, v in rs]
    return ConcV('pyfn', f=f)


def defaultdict(eng, st, args, kw):
    f = args[0] if args else NONEV
    default = None if isinstance(f, NoneV) else f
    if len(args) > 1:
        v = eng.val(st, args[1])
        if isinstance(v, CDictV): return eng.alloc(st, CDictV(v.d, default))
        if isinstance(v, DictV): return eng.alloc(st, DictV(v.k, v.v, v.dom, v.val, v.enum, default))
    return eng.alloc(st, CDictV({}, default))


def deque(eng, st, args, kw):
    m = args[1] if len(args) > 1 else kw.get('maxlen')
    src = b_list(eng, st, [args[0]], {}) if args and not isinstance(eng.val(st, args[0]), NoneV) else None
    m = None if m is None or isinstance(m, NoneV) else eng.val(st, m)
    if m is None: return src if src is not None else eng.alloc(st, clist([]))
    if src is not None: raise Unsupported('bounded deque of an iterable')
    out = []
    for s, neg in eng.split(st, m.t < 0):
        if neg: out.append((s, Exc('ValueError', 'maxlen must be non-negative'))); continue
        r = eng.alloc(s, clist([]))
        eng.maxlen[r.cell] = m.t
        out.append((s, r))
    return out


def unbounded(eng, st, r):
    if eng.cell_of(st, r) in eng.maxlen: raise Unsupported('this operation on a bounded deque')


# ------------------------------------------------------------------------------------------- containers
def m_append(eng, st, r, a, k):
    eng.list_append(st, r, a[0]); return NONEV


def m_extend(eng, st, r, a, k):
    unbounded(eng, st, r)
    v = eng.val(st, r)
    w = as_list(eng, st, a[0])
    if v.items is not None and w.items is not None:
        src = eng.iterview(st, a[0])
        eng.write(st, r, clist(v.items + list(src.items))); return NONEV
    eng.write(st, r, eng.list_concat(st, eng.snap(st, v), w)); return NONEV


def m_insert(eng, st, r, a, k):
    unbounded(eng, st, r)
    v = eng.val(st, r)
    if not (is_conc(a[0]) and conc(a[0]) == 0): raise Unsupported('insert position')
    if v.items is not None: eng.write(st, r, clist([a[1]] + v.items)); return NONEV
    x = eng.snap(st, a[1])
    el = join_ty(v.el, typeof(x)); xs = coerce(x, el)
    eng.write(st, r, ListV(v.n + 1, lambda i: ite(i == 0, xs, coerce(v.get(i - 1), el)), el))
    eng.note_overwrite(st, r, None)
    return NONEV


def m_pop_list(eng, st, r, a, k):
    v = eng.val(st, r)
    front = bool(a) and is_conc(a[0]) and conc(a[0]) == 0
    if a and not front and not (is_conc(a[0]) and conc(a[0]) == -1): raise Unsupported('pop position')
    out = []
    for s, empty in eng.split(st, v.n == 0):
        if empty: out.append((s, Exc('IndexError', 'pop from empty list'))); continue
        if v.items is not None:
            x = v.items[0] if front else v.items[-1]
            eng.write(s, r, clist(v.items[1:] if front else v.items[:-1]))
        elif front:
            x = box_all(eng, s, v.get(z3.IntVal(0)))
            eng.write(s, r, ListV(v.n - 1, lambda i: v.get(i + 1), v.el)); eng.note_overwrite(s, r, None)
        else:
            x = box_all(eng, s, v.get(v.n - 1))
            eng.write(s, r, ListV(v.n - 1, v.get, v.el)); eng.note_overwrite(s, r, None)
        out.append((s, x))
    return out


def m_popleft(eng, st, r, a, k): return m_pop_list(eng, st, r, [I(0)], k)


def m_clear(eng, st, r, a, k):
    v = eng.val(st, r)
    if isinstance(v, ListV): eng.write(st, r, clist([]))
    elif isinstance(v, SetV): eng.write(st, r, SetV(None, lambda q: z3.BoolVal(False)))
    else: eng.write(st, r, CDictV({}, v.default))
    eng.note_overwrite(st, r, None)
    return NONEV


def m_sort(eng, st, r, a, k):
    out = []
    for s, l in eng.norm(st, b_sorted(eng, st, [r], k)):
        if isinstance(l, Exc): out.append((s, l)); continue
        eng.write(s, r, eng.val(s, l)); eng.note_overwrite(s, r, None)
        out.append((s, NONEV))
    return out


def m_reverse(eng, st, r, a, k):
    v = eng.snap(st, r)
    if v.items is not None: eng.write(st, r, clist(list(reversed(eng.val(st, r).items))))
    else: eng.write(st, r, ListV(v.n, lambda i: v.get(v.n - 1 - i), v.el))
    eng.note_overwrite(st, r, None)
    return NONEV


def m_index(eng, st, r, a, k):
    v = eng.snap(st, r)
    x = coerce(eng.snap(st, a[0]), v.el)
    out = []
    for s, b in eng.split(st, eng.member(st, v, x)):
        if not b: out.append((s, Exc('ValueError'))); continue
        w = eng.fresh_fn(s, 'index', z3.IntSort())()
        j = z3.FreshConst(z3.IntSort(), 'j')
        trig = [y for t in flat(v.get(j)) for y in L.index_terms(t, j)]
        eng.assume(s, 0 <= w, w < v.n, eqv(v.get(w), x),
                   forall_pat([j], z3.Implies(z3.And(0 <= j, j < w), z3.Not(eqv(v.get(j), x))), trig[:1]))
        out.append((s, I(w)))
    return out


def m_copy(eng, st, r, a, k): return shallow(eng, st, [r], {})


def d_items(eng, st, r, a, k):
    v = eng.val(st, r)
    if isinstance(v, CDictV):
        return view(z3.IntVal(len(v.d)), None, [TupV([pykey(q), x]) for q, x in v.d.items()])
    if v.k is None: return view(z3.IntVal(0), None, [])
    n, keyat, idx = eng.enum_of(st, v)
    def get(i, s=None):
        key = keyat(i)
        return TupV([key, eng.handle(s or st, r, 'key', key, v.val(key))])
    return view(n, get)


def d_keys(eng, st, r, a, k):
    v = eng.val(st, r)
    if isinstance(v, CDictV): return view(z3.IntVal(len(v.d)), None, [pykey(q) for q in v.d])
    if v.k is None: return view(z3.IntVal(0), None, [])
    n, keyat, idx = eng.enum_of(st, v)
    return view(n, lambda i, s=None: keyat(i), None, v.dom)


def d_values(eng, st, r, a, k):
    v = eng.val(st, r)
    if isinstance(v, CDictV): return view(z3.IntVal(len(v.d)), None, list(v.d.values()))
    if v.k is None: return view(z3.IntVal(0), None, [])
    n, keyat, idx = eng.enum_of(st, v)
    return view(n, lambda i, s=None: eng.handle(s or st, r, 'key', keyat(i), v.val(keyat(i))))


def d_get(eng, st, r, a, k):
    dflt = a[1] if len(a) > 1 else NONEV
    v = eng.val(st, r)
    if isinstance(v, CDictV):
        if is_conc(a[0]): return v.d.get(conc(a[0]), dflt)
        if not v.d: return dflt
        v = cdict_to_dict(eng.snap(st, v))
    if v.k is None: return dflt
    key = eng.key(st, a[0], v.k)
    x = v.val(key)
    d = eng.val(st, dflt)
    if isinstance(x, (P, TupV, NoneV, OptV)) and isinstance(d, (P, TupV, NoneV, OptV)) :
        try: return ite(v.dom(key), x, d)
        except Unsupported: pass
    out = []
    for s, b in eng.split(st, v.dom(key)):
        out.append((s, eng.handle(s, r, 'key', key, x) if b else dflt))
    return out


def d_setdefault(eng, st, r, a, k):
    dflt = a[1] if len(a) > 1 else NONEV
    def f(s, isin):
        out = []
        for s2, b in eng.truth_split(s, isin):
            if b: out += eng.getitem(s2, r, a[0])
            else: out += eng.bind(eng.setitem(s2, r, a[0], dflt), lambda s3, _: eng.getitem(s3, r, a[0]))
        return out
    return eng.bind(eng.contains(st, r, a[0]), f)


def d_update(eng, st, r, a, k):
    v = eng.val(st, r)
    if not a: src = CDictV(k)
    else: src = eng.val(st, a[0])
    if isinstance(src, CDictV) and isinstance(v, CDictV):
        eng.write(st, r, CDictV(dict(v.d, **{q: x for q, x in src.d.items()}) if all(isinstance(q, str) for q in src.d) else {**v.d, **src.d}, v.default))
        return NONEV
    if isinstance(src, ObjV): raise Unsupported('update from object')
    if isinstance(src, (ListV, ConcV)): raise Unsupported('update from pairs')
    if isinstance(src, CDictV): src = cdict_to_dict(eng.snap(st, src)) if src.d else DictV(None, None, lambda q: z3.BoolVal(False), None)
    if src.k is None: return NONEV
    vs = cdict_to_dict(eng.snap(st, v), TDict(src.k, src.v)) if isinstance(v, CDictV) and v.d else (
        empty_dict(src.k, src.v) if isinstance(v, CDictV) or v.k is None else v)
    ty = TDict(join_ty(vs.k, src.k), join_ty(vs.v, src.v))
    x, y = coerce(vs, ty), coerce(src, ty)
    eng.write(st, r, DictV(ty.k, ty.v, lambda q: z3.Or(x.dom(q), y.dom(q)), lambda q: ite(y.dom(q), y.val(q), x.val(q)),
                           None, v.default))
    return NONEV


def d_pop(eng, st, r, a, k):
    v = eng.val(st, r)
    if isinstance(v, CDictV) and is_conc(a[0]):
        key = conc(a[0])
        if key not in v.d: return a[1] if len(a) > 1 else Exc('KeyError')
        d = dict(v.d); x = d.pop(key)
        eng.write(st, r, CDictV(d, v.default))
        return x
    if isinstance(v, CDictV): v = cdict_to_dict(eng.snap(st, v)) if v.d else empty_dict(STR, STR)
    key = eng.key(st, a[0], v.k)
    out = []
    for s, b in eng.split(st, v.dom(key)):
        if not b: out.append((s, a[1] if len(a) > 1 else Exc('KeyError'))); continue
        x = box_all(eng, s, v.val(key))
        eng.write(s, r, DictV(v.k, v.v, lambda q: z3.And(v.dom(q), z3.Not(eqv(q, key))), v.val, None, v.default))
        eng.note_overwrite(s, r, key)
        out.append((s, x))
    return out


def d_del(eng, st, r, a, k):
    return [(s, x if isinstance(x, Exc) else NONEV) for s, x in eng.norm(st, d_pop(eng, st, r, a, k))]


def s_add(eng, st, r, a, k):
    eng.set_add(st, r, a[0]); return NONEV


def s_update(eng, st, r, a, k):
    for x in a:
        v = eng.val(st, r)
        src = eng.val(st, eng.norm(st, b_set(eng, st, [x], {}))[0][1])
        if src.k is None: continue
        vv = coerce(v, TSet(src.k)) if v.k is None else v
        if v.k is None: eng.write(st, r, SetV(src.k, src.dom, src.enum)); continue
        eng.write(st, r, SetV(join_ty(vv.k, src.k), lambda q, vv=vv, src=src: z3.Or(vv.dom(q), src.dom(q))))
    return NONEV


def s_binary(op):
    def f(eng, st, r, a, k):
        res = r
        for x in a:
            y = eng.norm(st, b_set(eng, st, [x], {}))[0][1]
            res = eng.binop(st, op, res, y)[0][1]
        if not a: return shallow(eng, st, [r], {})
        return res
    return f


def s_discard(eng, st, r, a, k):
    v = eng.val(st, r)
    if v.k is None: return NONEV
    key = eng.key(st, a[0], v.k)
    eng.write(st, r, SetV(v.k, lambda q: z3.And(v.dom(q), z3.Not(eqv(q, key)))))
    return NONEV


def s_remove(eng, st, r, a, k):
    v = eng.val(st, r)
    if v.k is None: return Exc('KeyError')
    key = eng.key(st, a[0], v.k)
    out = []
    for s, b in eng.split(st, v.dom(key)):
        if not b: out.append((s, Exc('KeyError'))); continue
        eng.write(s, r, SetV(v.k, lambda q: z3.And(v.dom(q), z3.Not(eqv(q, key)))))
        out.append((s, NONEV))
    return out


def s_issubset(eng, st, r, a, k):
    v = eng.val(st, r)
    y = eng.val(st, eng.norm(st, b_set(eng, st, [a[0]], {}))[0][1])
    if v.k is None: return B(True)
    q, cs = keyconst(v.k)
    return B(z3.ForAll(cs, z3.Implies(v.dom(q), y.dom(q) if y.k is not None else z3.BoolVal(False))))


# ------------------------------------------------------------------------------------------- strings
def str_uf(name, res='str', nargs=0):
    """pure string method as an uninterpreted function of its arguments (evaluated when all are literals)"""
    def f(eng, st, r, a, k):
        if k: raise Unsupported('keywords of str.%s' % name)
        vs = [eng.val(st, x) for x in [r] + list(a)]
        if all(is_conc(v) for v in vs):
            pv = getattr(conc(vs[0]), name)(*[conc(v) for v in vs[1:]])
            return to_sv(eng, st, pv)
        ts = [v.t for v in vs]
        if res == 'str': return P(STR, eng.uf('str_%s_%d' % (name, len(ts)), *([t.sort() for t in ts] + [StrSort]))(*ts))
        if res == 'bool': return P(BOOL, eng.uf('str_%s_%d' % (name, len(ts)), *([t.sort() for t in ts] + [z3.BoolSort()]))(*ts))
        if res == 'int': return P(INT, eng.uf('str_%s_%d' % (name, len(ts)), *([t.sort() for t in ts] + [z3.IntSort()]))(*ts))
        # list of strings
        n = eng.uf('str_%s_%d_len' % (name, len(ts)), *([t.sort() for t in ts] + [z3.IntSort()]))(*ts)
        el = eng.uf('str_%s_%d_at' % (name, len(ts)), *([t.sort() for t in ts] + [z3.IntSort(), StrSort]))
        eng.assume(st, n >= (1 if name in ('split', 'rsplit') and len(ts) > 1 else 0))
        if name in ('split', 'rsplit') and len(ts) == 3:
            eng.assume(st, n <= ts[2] + 1)
        return eng.alloc(st, ListV(n, lambda i: P(STR, el(*(ts + [i]))), STR))
    return f


def to_sv(eng, st, pv):
    if isinstance(pv, bool): return B(pv)
    if isinstance(pv, int): return I(pv)
    if isinstance(pv, float): return R(repr(pv))
    if isinstance(pv, str): return S(pv)
    if pv is None: return NONEV
    if isinstance(pv, (list,)): return eng.alloc(st, clist([to_sv(eng, st, x) for x in pv]))
    if isinstance(pv, tuple): return TupV([to_sv(eng, st, x) for x in pv])
    if isinstance(pv, dict): return eng.alloc(st, CDictV({k: to_sv(eng, st, x) for k, x in pv.items()}))
    raise Unsupported('constant %r' % (pv,))


def str_join(eng, st, r, a, k):
    sep = eng.val(st, r).t
    iv = eng.iterview(st, a[0])
    if iv.items is not None:
        seq = []
        for j, x in enumerate(iv.items):
            if j: seq.append(sep)
            w = eng.val(st, x)
            if isinstance(w, OptV): raise Unsupported('join of optional')
            seq.append(w.t)
        return P(STR, eng.concat(seq))
    # fold over a symbolic sequence: uninterpreted prefix fold with the elementwise congruence axiom
    i = z3.FreshConst(z3.IntSort(), 'i')
    t = eng.val(st, iv_get(iv, i, st)).t
    J = z3.Function('join!%d' % uid(), *([c.sort() for c in st.ctx] + [z3.IntSort(), StrSort]))
    for (sep2, J2, i2, t2, ctx2) in eng.__dict__.setdefault('joins', []):
        pass
    d = JoinDef(list(st.ctx), i, t, sep, J)
    eng.__dict__.setdefault('join_defs', []).append(d)
    eng.axioms += d.axioms(eng)
    for o in eng.join_defs[:-1]: eng.axioms.append(d.ext(o))
    return P(STR, J(*(list(st.ctx) + [iv.n])))


class JoinDef(object):
    def __init__(self, params, i, t, sep, J): self.params, self.i, self.t, self.sep, self.J = params, i, t, sep, J
    def el(self, args, j): return z3.substitute(self.t, *([(p, a) for p, a in zip(self.params, args)] + [(self.i, j)]))
    def axioms(self, eng):
        pa = [z3.FreshConst(p.sort(), 'p') for p in self.params]
        sep = self.sep if not any(mentions_const(self.sep, p) for p in self.params) else None
        out = [V._forall(pa, self.J(*(pa + [z3.IntVal(0)])) == strlit(''), [self.J(*(pa + [z3.IntVal(0)]))] if pa else [])]
        return out
    def ext(self, o):
        pa = [z3.FreshConst(p.sort(), 'p') for p in self.params]
        pb = [z3.FreshConst(p.sort(), 'q') for p in o.params]
        m = z3.FreshConst(z3.IntSort(), 'm')
        w = z3.Function('wj!%d' % uid(), *([p.sort() for p in pa + pb] + [z3.IntSort(), z3.IntSort()]))
        ww = w(*(pa + pb + [m]))
        x, y = self.J(*(pa + [m])), o.J(*(pb + [m]))
        return z3.ForAll(pa + pb + [m], z3.Or(x == y, self.sep != o.sep, z3.And(0 <= ww, ww < m, self.el(pa, ww) != o.el(pb, ww))),
                         patterns=[z3.MultiPattern(x, y)])


def str_format(eng, st, r, a, k):
    fmt = str_value(eng.val(st, r).t)
    if fmt is None: raise Unsupported('format of a symbolic string')
    import string
    seq = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        seq.append(lit)
        if field is None: continue
        if spec or conv:
            seq.append(eng.fresh_fn(st, 'fmt', StrSort)()); auto += (field == ''); continue
        if field == '':
            x = a[auto]; auto += 1
        elif field.isdigit(): x = a[int(field)]
        elif field in k: x = k[field]
        else: raise Unsupported('format field %s' % field)
        seq.append(eng.to_str(st, x))
    return P(STR, eng.concat(seq))


def str_getitem(eng, st, r, a, k):
    v, i = eng.val(st, r), eng.val(st, a[0])
    if isinstance(i, ConcV) and i.kind == 'slice':
        if is_conc(v) and all(is_conc(x) for x in (i.lo, i.hi, i.step)):
            return S(conc(v)[slice(conc(i.lo), conc(i.hi), conc(i.step))])
        key = repr([conc(x) if is_conc(x) else None for x in (i.lo, i.hi, i.step)])
        if not all(is_conc(x) for x in (i.lo, i.hi, i.step)): raise Unsupported('symbolic string slice')
        return P(STR, eng.uf('str_slice_' + key, StrSort, StrSort)(v.t))
    if is_conc(v) and is_conc(i):
        try: return S(conc(v)[conc(i)])
        except IndexError: return Exc('IndexError')
    return P(STR, eng.uf('str_at', StrSort, z3.IntSort(), StrSort)(v.t, i.t))


def str_iter(eng, st, r, a, k):
    v = eng.val(st, r)
    if is_conc(v): return eng.alloc(st, clist([S(c) for c in conc(v)]))
    f = eng.uf('str_at', StrSort, z3.IntSort(), StrSort)
    return eng.alloc(st, ListV(eng.strlen(v.t), lambda i: P(STR, f(v.t, i)), STR))


# ------------------------------------------------------------------------------------------- math
def ln(eng):
    f = eng.uf('ln', z3.RealSort(), z3.RealSort())
    if not eng.__dict__.get('_ln_ax'):
        eng._ln_ax = True
        x, y = z3.Reals('x y')
        eng.axioms += [f(z3.RealVal(1)) == 0,
                       z3.ForAll([x], z3.Implies(x > 1, f(x) > 0), patterns=[f(x)]),
                       z3.ForAll([x], z3.Implies(z3.And(0 < x, x < 1), f(x) < 0), patterns=[f(x)])]
    return f


def math_log(base=None):
    def f(eng, st, args, kw):
        v = eng.val(st, args[0])
        if isinstance(v, ArrV): return eng.methods[('arr', 'map')](eng, st, args[0], lambda t: ln(eng)(to_real(t)), REAL)
        t = to_real(v.t)
        b = base
        if len(args) > 1 and base is None:
            bv = real_value(to_real(eng.val(st, args[1]).t))
            b = bv
        fn = ln(eng)
        r = fn(t)
        if b is not None and b != 'e':
            r = r / fn(z3.RealVal(b))
            eng.assume(st, fn(z3.RealVal(b)) > 0)
        out = []
        for s, pos in eng.split(st, t > 0):
            out.append((s, P(REAL, r) if pos else Exc('ValueError', 'math domain error')))
        return out
    return f


def math_sqrt(eng, st, args, kw):
    v = eng.val(st, args[0])
    sq = eng.uf('sqrt', z3.RealSort(), z3.RealSort())
    if isinstance(v, ArrV): return eng.methods[('arr', 'map')](eng, st, args[0], lambda t: sq(to_real(t)), REAL)
    t = to_real(v.t)
    eng.assume(st, z3.Implies(t >= 0, z3.And(sq(t) >= 0, sq(t) * sq(t) == t)))
    return [(s, P(REAL, sq(t)) if b else Exc('ValueError')) for s, b in eng.split(st, t >= 0)]


# ------------------------------------------------------------------------------------------- regex
RE = TU('Regex')
MATCH = TU('Match')


def re_compile(eng, st, args, kw):
    v = eng.val(st, args[0])
    if isinstance(v, P) and v.ty == RE: return v
    return P(RE, eng.uf('re_compile', StrSort, RE.sort)(v.t))


def re_match(kind):
    def f(eng, st, r, a, k):
        rx, s = eng.val(st, r), eng.val(st, a[0])
        if isinstance(rx, P) and rx.ty == STR: rx = P(RE, eng.uf('re_compile', StrSort, RE.sort)(rx.t))
        none = eng.uf('re_no_%s' % kind, RE.sort, StrSort, z3.BoolSort())(rx.t, s.t)
        m = eng.uf('re_%s' % kind, RE.sort, StrSort, MATCH.sort)(rx.t, s.t)
        return OptV(none, P(MATCH, m))
    return f


def re_match_fn(kind):
    g = re_match(kind)
    return lambda eng, st, args, kw: g(eng, st, args[0], args[1:], kw)


def match_group(eng, st, r, a, k):
    m = eng.val(st, r)
    g = eng.uf('match_group', MATCH.sort, z3.IntSort(), StrSort)
    if not a: return P(STR, g(m.t, z3.IntVal(0)))
    if len(a) > 1: return TupV([match_group(eng, st, r, [x], k) for x in a])
    i = eng.val(st, a[0])
    if i.ty == STR: return P(STR, eng.uf('match_named', MATCH.sort, StrSort, StrSort)(m.t, i.t))
    return P(STR, g(m.t, i.t))


def match_groups(eng, st, r, a, k):
    m = eng.val(st, r)
    g = eng.uf('match_group', MATCH.sort, z3.IntSort(), StrSort)
    n = eng.uf('match_ngroups', MATCH.sort, z3.IntSort())(m.t)
    eng.assume(st, n >= 0)
    return eng.alloc(st, ListV(n, lambda i: P(STR, g(m.t, i + 1)), STR))


# ------------------------------------------------------------------------------------------- obj.__dict__
def od_fields(eng, st, d):
    o = eng.val(st, d).obj
    return CDictV({k: eng.handle(st, o, 'field', k, x) for k, x in eng.val(st, o).fields.items() if k != '*dyn'})


def od_delegate(name):
    def f(eng, st, d, a, k):
        r = eng.alloc(st, od_fields(eng, st, d))
        return eng.call_method(st, r, name, a, k)
    return f


def od_dyn(eng, st, d):
    """attributes written under computed names live in a dictionary of their own"""
    r = eng.val(st, eng.val(st, d).obj).fields.get('*dyn')
    if r is not None: eng.assumptions.add('attributes with a computed name (__dict__[...]) do not coincide with attributes written by name')
    return r


def od_get(eng, st, d, a, k):
    kv = eng.val(st, a[0])
    dyn = od_dyn(eng, st, d) if not is_conc(kv) or (conc(kv) not in od_fields(eng, st, d).d) else None
    if dyn is not None: return eng.call_method(st, dyn, 'get', a, k)
    if not is_conc(kv): raise Unsupported('__dict__.get of a computed name')
    return od_delegate('get')(eng, st, d, a, k)


def od_getitem(eng, st, d, a, k):
    kv = eng.val(st, a[0])
    f = od_fields(eng, st, d)
    if is_conc(kv) and conc(kv) in f.d: return f.d[conc(kv)]
    dyn = od_dyn(eng, st, d)
    if dyn is not None: return eng.getitem(st, dyn, a[0])
    if is_conc(kv): return Exc('KeyError', str(conc(kv)))
    # a computed name among the attributes the object has
    can, rest = [], []
    for n, x in f.d.items():
        if eng.check_valid(st, z3.Not(eqv(pykey(n), kv)), 0.5) is not True: can.append((n, eng.val(st, x)))
    hit = z3.Or(*[eqv(pykey(n), kv) for n, x in can]) if can else z3.BoolVal(False)
    if not all(isinstance(x, P) and x.ty == can[0][1].ty for n, x in can): return eng.getitem_fork(st, None, f, kv)
    out = []
    for s, b in eng.split(st, hit):
        if not b: out.append((s, Exc('KeyError'))); continue
        r = can[-1][1]
        for n, x in reversed(can[:-1]): r = ite(eqv(pykey(n), kv), x, r)
        out.append((s, r))
    return out


def od_setitem(eng, st, d, a, k):
    kv = eng.val(st, a[0])
    if is_conc(kv):
        eng.set_field(st, eng.val(st, d).obj, conc(kv), a[1])
        return NONEV
    dyn = od_dyn(eng, st, d)
    if dyn is None: raise Unsupported('__dict__ entry with a computed name')
    return [(s, r if isinstance(r, Exc) else NONEV) for s, r in eng.setitem(st, dyn, a[0], a[1])]


def od_update(eng, st, d, a, k):
    new = {}
    for x in a:
        v = eng.val(st, x)
        if not isinstance(v, CDictV): raise Unsupported('__dict__.update of %r' % (v,))
        new.update(v.d)
    new.update(k)
    for n, x in new.items(): eng.set_field(st, eng.val(st, d).obj, n, x)
    return NONEV


def install(eng):
    E, M = eng.ext, eng.methods
    for n in ('items', 'keys', 'values', 'copy'): M[('objdict', n)] = od_delegate(n)
    M[('objdict', 'get')] = od_get
    M[('objdict', '__getitem__')] = od_getitem
    M[('objdict', '__setitem__')] = od_setitem
    M[('objdict', 'update')] = od_update
    M[('objdict', '__contains__')] = lambda e, s, d, a, k: e.contains(s, od_fields(e, s, d), a[0])
    M[('objdict', '__iter__')] = lambda e, s, d, a, k: od_fields(e, s, d)
    for n in ('int', 'float', 'str', 'bool', 'list', 'dict', 'set', 'tuple', 'frozenset', 'object', 'bytes', 'type', 'slice'):
        pass
    B_ = {'len': b_len, 'range': b_range, 'xrange': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed,
          'list': b_list, 'tuple': b_tuple, 'set': b_set, 'frozenset': b_frozenset, 'dict': b_dict, 'sorted': b_sorted,
          'sum': b_sum, 'any': b_quant(False), 'all': b_quant(True), 'min': b_minmax(True), 'max': b_minmax(False),
          'abs': b_abs, 'isinstance': b_isinstance, 'type': b_type, 'str': b_str, 'int': b_int, 'float': b_float,
          'bool': b_bool, 'map': b_map, 'filter': b_filter, 'hasattr': b_hasattr, 'getattr': b_getattr, 'iter': b_iter,
          'print': b_print, 'unicode': b_str}
    for n, f in B_.items(): E['builtins.' + n] = f
    for p in ('copy.deepcopy',): E[p] = deepcopy
    E['copy.copy'] = shallow
    E['operator.itemgetter'] = itemgetter
    for p in ('tqdm.tqdm', 'tqdm.tqdm_notebook', 'tqdm.trange', 'tqdm.tnrange'):
        E[p] = identity if not p.endswith('range') else b_range
    E['collections.defaultdict'] = defaultdict
    E['collections.OrderedDict'] = b_dict
    E['collections.deque'] = deque
    for p in ('six.iteritems', 'future.utils.iteritems'): E[p] = lambda e, s, a, k: d_items(e, s, a[0], [], {})
    E['six.iterkeys'] = lambda e, s, a, k: d_keys(e, s, a[0], [], {})
    E['six.itervalues'] = lambda e, s, a, k: d_values(e, s, a[0], [], {})
    E['math.log'] = math_log()
    E['numpy.log'] = math_log('e')
    E['math.log2'] = E['numpy.log2'] = math_log(2)
    E['math.log10'] = E['numpy.log10'] = math_log(10)
    E['math.sqrt'] = E['numpy.sqrt'] = math_sqrt
    E['re.compile'] = re_compile
    E['re.match'] = re_match_fn('match'); E['re.search'] = re_match_fn('search'); E['re.fullmatch'] = re_match_fn('fullmatch')
    for n in ('match', 'search', 'fullmatch'): M[('Regex', n)] = re_match(n)
    M[('Match', 'group')] = match_group
    M[('Match', 'groups')] = match_groups
    for n, f in {'append': m_append, 'extend': m_extend, 'insert': m_insert, 'pop': m_pop_list, 'popleft': m_popleft,
                 'clear': m_clear, 'sort': m_sort, 'reverse': m_reverse, 'index': m_index, 'copy': m_copy}.items():
        M[('list', n)] = f
    for n, f in {'items': d_items, 'keys': d_keys, 'values': d_values, 'get': d_get, 'setdefault': d_setdefault,
                 'update': d_update, 'pop': d_pop, '__delitem__': d_del, 'copy': m_copy, 'clear': m_clear,
                 'iteritems': d_items, 'itervalues': d_values, 'iterkeys': d_keys}.items():
        M[('dict', n)] = f
    for n, f in {'add': s_add, 'update': s_update, 'union': s_binary('BitOr'), 'intersection': s_binary('BitAnd'),
                 'difference': s_binary('Sub'), 'symmetric_difference': s_binary('BitXor'), 'discard': s_discard,
                 'remove': s_remove, 'issubset': s_issubset, 'copy': m_copy, 'clear': m_clear}.items():
        M[('set', n)] = f
    for n in ('union', 'intersection', 'difference', 'issubset'): M[('frozenset', n)] = fset_op(n)
    M[('frozenset', '__iter__')] = lambda e, s, r, a, k: e.alloc(s, fset_set(e.val(s, r)))
    M[('frozenset', '__len__')] = lambda e, s, r, a, k: b_len(e, s, [e.alloc(s, fset_set(e.val(s, r)))], {})
    M[('frozenset', '__contains__')] = lambda e, s, r, a, k: e.contains(s, fset_set(e.val(s, r)), a[0])
    for n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title', 'encode', 'decode', 'zfill'):
        M[('str', n)] = str_uf(n)
    for n in ('startswith', 'endswith', 'isdigit', 'isdecimal', 'isalpha'): M[('str', n)] = str_uf(n, 'bool')
    for n in ('find', 'rfind', 'count', 'index'): M[('str', n)] = str_uf(n, 'int')
    for n in ('split', 'rsplit', 'splitlines'): M[('str', n)] = str_uf(n, 'list')
    M[('str', 'join')] = str_join
    M[('str', 'format')] = str_format
    M[('str', '__getitem__')] = str_getitem
    M[('str', '__iter__')] = str_iter
    E['attr:sys.version_info'] = TupV([I(3), I(12), I(3), S('final'), I(0)])
    ign = ConcV('ignored')
    for p in ('logging.getLogger', 'warnings.warn', 'time.time', 'datetime.datetime.now', 'os.getpid', 'gc.collect'):
        E[p] = lambda e, s, a, k: ign
    from . import nplib, iolib
    nplib.install(eng)
    iolib.install(eng)
