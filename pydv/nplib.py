"""Assumed contracts of numpy / scipy.sparse / pandas / sklearn functions.

Arrays are pointwise: a shape (integer terms) and a function from indices to the element; sparse matrices have in addition
the predicate `stored`.  Elements are mathematical numbers (no rounding, no overflow).  Sparse matrices are assumed to be in
canonical form (no duplicate entries for one cell).  Basic slices are modelled as copies: the engine refuses code that
writes into an array obtained by slicing another one.
"""
import z3
from .values import *
from .engine import *
from .engine import forall_pat, mentions_const
from . import lib
from . import loops as L

IV = z3.IntVal


def zero(dt): return z3.BoolVal(False) if dt == BOOL else (z3.RealVal(0) if dt == REAL else (z3.IntVal(0) if dt == INT else strlit('')))


def cvt(t, frm, to):
    if frm == to: return t
    if to == REAL: return to_real(to_int(t) if frm == BOOL else t)
    if to == INT:
        if frm == BOOL: return to_int(t)
        return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    if to == BOOL: return t != zero(frm)
    raise Unsupported('conversion of array elements')


def rng(i, n): return z3.And(0 <= i, i < n)


def fi(name='i'): return z3.FreshConst(z3.IntSort(), name)


def nd(shape, get, dt, **kw): return ArrV('nd', [z3.IntVal(x) if isinstance(x, int) else x for x in shape], get, dt, **kw)


def sp(shape, get, stored, dt, fmt='csr', **kw): return ArrV('sp', [z3.IntVal(x) if isinstance(x, int) else x for x in shape], get, dt, stored, fmt, **kw)


def A(eng, st, x):
    v = eng.val(st, x)
    if not isinstance(v, ArrV): raise Unsupported('array expected, got %r' % (v,))
    return v


def scalar(eng, st, x):
    v = eng.val(st, x)
    if isinstance(v, P): return v
    raise Unsupported('number expected, got %r' % (v,))


def dtype_of(eng, st, x, default=None):
    if x is None: return default
    v = eng.val(st, x)
    if isinstance(v, NoneV): return default
    nm = None
    if isinstance(v, ConcV):
        nm = v.name if v.kind in ('builtin', 'type') else (v.path.split('.')[-1] if v.kind == 'ext' else None)
        if v.kind == 'dtype': return v.dt
    elif isinstance(v, P) and v.ty == STR: nm = str_value(v.t)
    if nm is None: raise Unsupported('dtype %r' % (v,))
    if nm.startswith('float') or nm in ('double', 'f8', 'f4'): return REAL
    if nm.startswith('int') or nm.startswith('uint'): return INT
    if nm.startswith('bool'): return BOOL
    raise Unsupported('dtype %s' % nm)


def retype(a, dt):
    if dt is None or dt == a.dt: return a
    st_ = a.stored
    g = lambda *ix: cvt(a.get(*ix), a.dt, dt)
    return ArrV(a.kind, a.shape, g, dt, st_, a.fmt, **{k: v for k, v in a.extra.items() if k in ('enum', 'npmatrix')})


def list_arr(eng, st, l, dt=None):
    """array from list content"""
    if l.items is not None and not l.items: return nd([0], lambda i: zero(dt or REAL), dt or REAL)
    e = l.get(IV(0)) if l.items is None else l.items[0]
    if isinstance(e, (ListV, TupV)):
        rows = l
        if l.items is not None:
            its = [clist(r.items) if isinstance(r, TupV) else r for r in l.items]
            w = its[0].n
            for r in its[1:]:
                if not eng.known(st, r.n == w): raise Unsupported('ragged nested list')
            a = [list_arr(eng, st, r) for r in its]
            d = a[0].dt
            for x in a[1:]: d = join_ty(d, x.dt)
            def get(i, j):
                r = cvt(a[-1].get(j), a[-1].dt, d)
                for k in range(len(a) - 2, -1, -1): r = z3.If(i == k, cvt(a[k].get(j), a[k].dt, d), r)
                return r
            return retype(nd([len(its), w], get, d), dt)
        if isinstance(e, TupV):
            raise Unsupported('array of tuples')
        i = fi()
        w = l.get(IV(0)).n
        if not eng.known(st, z3.ForAll([i], z3.Implies(rng(i, l.n), l.get(i).n == w))): raise Unsupported('ragged nested list')
        dd = l.el.el
        return retype(nd([l.n, w], lambda i, j: l.get(i).get(j).t, dd), dt)
    if isinstance(e, ArrV):
        if l.items is None: raise Unsupported('list of arrays')
        raise Unsupported('list of arrays')
    if not isinstance(e, P): raise Unsupported('array of %r' % (e,))
    d = e.ty
    if l.items is not None:
        for x in l.items: d = join_ty(d, x.ty)
        its = [coerce(x, d) for x in l.items]
        l = ListV(l.n, None, d, its)
    elif l.el is not None and isinstance(l.el, TPrim): d = l.el
    return retype(nd([l.n], lambda i: l.get(i).t, d, lst=l), dt)


def to_arr(eng, st, x, dt=None):
    v = eng.val(st, x)
    if isinstance(v, ArrV): return retype(v, dt)
    if isinstance(v, P): raise Unsupported('0-dimensional array')
    return list_arr(eng, st, lib.as_list(eng, st, x), dt)


def shape_of(eng, st, x):
    v = eng.val(st, x)
    if isinstance(v, P): return [to_int(v.t)]
    if isinstance(v, ConcV) and v.kind == 'shape': return list(v.shape)
    iv = eng.iterview(st, v)
    if iv.items is None:
        if isinstance(v, ArrV) and int_value(v.shape[0]) is not None:
            return [v.get(IV(k)) for k in range(int_value(v.shape[0]))]
        raise Unsupported('shape')
    return [to_int(eng.val(st, y).t) for y in iv.items]


# ------------------------------------------------------------------------------------------- enumerations of stored entries
class Enum(object):
    def __init__(self, n, row, col, eid): self.n, self.row, self.col, self.eid = n, row, col, eid


def sp_enum(eng, st, a):
    """the stored entries of a sparse matrix, one index per entry (row-major in csr and coo made from it)"""
    e = a.extra.get('enum')
    if e is None:
        n = eng.fresh_fn(st, 'nnz', z3.IntSort())()
        r = eng.fresh_fn(st, 'row', z3.IntSort(), z3.IntSort())
        c = eng.fresh_fn(st, 'col', z3.IntSort(), z3.IntSort())
        d = eng.fresh_fn(st, 'eid', z3.IntSort(), z3.IntSort(), z3.IntSort())
        e = Enum(n, r, c, d)
        a.extra['enum'] = e
        e.stored, e.shape, e.facts = a.stored, a.shape, None
        k, i, j = fi('e'), fi('i'), fi('j')
        inr = z3.And(rng(i, a.shape[0]), rng(j, a.shape[1]))
        body = z3.Implies(z3.And(inr, a.stored(i, j)), z3.And(rng(d(i, j), n), r(d(i, j)) == i, c(d(i, j)) == j))
        e.facts = [n >= 0,
                   z3.ForAll([k], z3.Implies(rng(k, n), z3.And(rng(r(k), a.shape[0]), rng(c(k), a.shape[1]),
                                                               a.stored(r(k), c(k)), d(r(k), c(k)) == k)), patterns=[r(k)]),
                   z3.ForAll([k], z3.Implies(rng(k, n), z3.And(rng(r(k), a.shape[0]), rng(c(k), a.shape[1]),
                                                               a.stored(r(k), c(k)), d(r(k), c(k)) == k)), patterns=[c(k)]),
                   z3.ForAll([i, j], body, patterns=[d(i, j)])]
        s = a.stored(i, j)
        if z3.is_app(s) and s.num_args() and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            e.facts.append(forall_pat([i, j], body, [s]))
        e.ctx = list(st.ctx)
    eng.assume(st, *e.facts)
    return e


def indptr(eng, st, a):
    e = sp_enum(eng, st, a)
    if getattr(e, 'ip', None) is None:
        ip = eng.fresh_fn(st, 'indptr', z3.IntSort(), z3.IntSort())
        i, k = fi('i'), fi('e')
        m = a.shape[0]
        e.ip = ip
        e.ipfacts = [ip(IV(0)) == 0, ip(m) == e.n,
                     z3.ForAll([i], z3.Implies(rng(i, m), z3.And(ip(i) <= ip(i + 1), 0 <= ip(i), ip(i + 1) <= e.n)), patterns=[ip(i)]),
                     z3.ForAll([k], z3.Implies(rng(k, e.n), z3.And(ip(e.row(k)) <= k, k < ip(e.row(k) + 1))), patterns=[e.row(k)]),
                     z3.ForAll([i, k], z3.Implies(z3.And(rng(i, m), ip(i) <= k, k < ip(i + 1)), e.row(k) == i), patterns=[z3.MultiPattern(ip(i), e.row(k))])]
    eng.assume(st, *e.ipfacts)
    return e


def from_coo(eng, st, data, row, col, shape, fmt='csr'):
    """csr_matrix((data, (row, col)), shape): entries of the same cell are added up"""
    n = data.shape[0]
    k, k2, i, j = fi('e'), fi('f'), fi('i'), fi('j')
    out = []
    m0, m1 = shape
    ok = z3.ForAll([k], z3.Implies(rng(k, n), z3.And(rng(row.get(k), m0), rng(col.get(k), m1))))
    for s, good in eng.split(st, z3.And(row.shape[0] == n, col.shape[0] == n, ok)):
        if not good: out.append((s, Exc('ValueError', 'index out of range'))); continue
        inj = z3.Implies(z3.And(rng(k, n), rng(k2, n), row.get(k) == row.get(k2), col.get(k) == col.get(k2)), k == k2)
        D, w = L.exists_iter(eng, s, TTup(INT, INT), lambda q, t: z3.And(q.items[0].t == row.get(t), q.items[1].t == col.get(t)), n)
        key = lambda a, b: TupV([P(INT, a), P(INT, b)])
        stored = lambda a, b: D(key(a, b))
        if eng.check_valid(s, inj, 5.0) is True:
            get = lambda a, b: z3.If(D(key(a, b)), data.get(w(key(a, b))), zero(data.dt))
            # restate injectivity through the witness: the entry of (row k, col k) is k
            eng.assume(s, forall_pat([k], z3.Implies(rng(k, n), w(key(row.get(k), col.get(k))) == k), L.index_terms(row.get(k), k)[:1]))
        else:
            if data.dt == BOOL: raise Unsupported('duplicate boolean entries')
            d = eng.new_sum(list(s.ctx) + [i, j], k, z3.If(z3.And(row.get(k) == i, col.get(k) == j), data.get(k), zero(data.dt)))
            get = lambda a, b: d.at(list(s.ctx) + [a, b], n)
        out.append((s, eng.alloc(s, sp([m0, m1], get, stored, data.dt, fmt))))
    return out


def sparse_ctor(fmt):
    def f(eng, st, args, kw):
        v = eng.val(st, args[0])
        if isinstance(v, ArrV):
            dt = dtype_of(eng, st, lib.kwarg(args, kw, 2, 'dtype'))
            if v.kind == 'sp': return eng.alloc(st, retype(v.with_(fmt=fmt), dt))
            if len(v.shape) != 2: raise Unsupported('sparse matrix from a vector')
            v = retype(v, dt)
            return eng.alloc(st, sp(v.shape, v.get, lambda i, j: v.get(i, j) != zero(v.dt), v.dt, fmt))
        if isinstance(v, TupV):
            shp = lib.kwarg(args, kw, 1, 'shape')
            dt = dtype_of(eng, st, kw.get('dtype'))
            if len(v.items) == 2 and isinstance(eng.val(st, v.items[1]), TupV):
                data = to_arr(eng, st, v.items[0], dt)
                rc = eng.val(st, v.items[1]).items
                if shp is None: raise Unsupported('sparse matrix without a shape')
                return from_coo(eng, st, data, to_arr(eng, st, rc[0]), to_arr(eng, st, rc[1]), shape_of(eng, st, shp), fmt)
            if len(v.items) == 3:
                data, ind, ptr = [to_arr(eng, st, x) for x in v.items]
                data = retype(data, dt)
                if shp is None: raise Unsupported('sparse matrix without a shape')
                m0, m1 = shape_of(eng, st, shp)
                if fmt != 'csr': raise Unsupported('raw %s matrix' % fmt)
                own = eng.fresh_fn(st, 'rowof', z3.IntSort(), z3.IntSort())
                k, i = fi('e'), fi('i')
                n = data.shape[0]
                wf = z3.And(ptr.shape[0] == m0 + 1, ind.shape[0] == n, ptr.get(IV(0)) == 0, ptr.get(m0) == n,
                            z3.ForAll([i], z3.Implies(rng(i, m0), ptr.get(i) <= ptr.get(i + 1))))
                out = []
                for s, good in eng.split(st, wf):
                    if not good: out.append((s, Exc('ValueError', 'index pointer'))); continue
                    e = ptr.extra.get('enum')
                    if e is not None and ptr.extra.get('role') == 'indptr' and eng.known(s, z3.And(e.n == n, e.shape[0] == m0)):
                        rowof = e.row
                    else:
                        rowof = own
                        eng.assume(s, forall_pat([k], z3.Implies(rng(k, n), z3.And(rng(own(k), m0), ptr.get(own(k)) <= k, k < ptr.get(own(k) + 1))), [own(k)]))
                        eng.assume(s, z3.ForAll([i, k], z3.Implies(z3.And(rng(i, m0), ptr.get(i) <= k, k < ptr.get(i + 1)), own(k) == i)))
                    out += from_coo(eng, s, data, nd([n], rowof, INT), ind, [m0, m1], fmt)
                return out
            if len(v.items) == 2:
                m0, m1 = [eng.val(st, x).t for x in v.items]
                dt = dtype_of(eng, st, kw.get('dtype'), REAL)
                return eng.alloc(st, sp([m0, m1], lambda i, j: zero(dt), lambda i, j: z3.BoolVal(False), dt, fmt))
        raise Unsupported('%s_matrix of %r' % (fmt, v))
    return f


# ------------------------------------------------------------------------------------------- indexing
def filt(eng, st, mask):
    """positions of the true elements of a 1-D mask, in order"""
    f = mask.extra.get('filt')
    if f is None:
        n = mask.shape[0]
        c = mask.get
        m = eng.fresh_fn(st, 'cnt', z3.IntSort())()
        pos = eng.fresh_fn(st, 'pos', z3.IntSort(), z3.IntSort())
        inv = eng.fresh_fn(st, 'inv', z3.IntSort(), z3.IntSort())
        j, j2, k = fi('j'), fi('h'), fi('k')
        body = z3.Implies(z3.And(rng(k, n), c(k)), z3.And(rng(inv(k), m), pos(inv(k)) == k))
        facts = [m >= 0, m <= n,
                 z3.ForAll([j], z3.Implies(rng(j, m), z3.And(rng(pos(j), n), c(pos(j)), inv(pos(j)) == j)), patterns=[pos(j)]),
                 z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), pos(j) < pos(j2)), patterns=[z3.MultiPattern(pos(j), pos(j2))]),
                 z3.ForAll([k], body, patterns=[inv(k)])]
        trig = L.index_terms(c(k), k)
        if trig: facts.append(forall_pat([k], body, trig[:1]))
        f = (m, pos, inv, facts)
        mask.extra['filt'] = f
    eng.assume(st, *f[3])
    return f


def axis_index(eng, st, k, n):
    """index expression on an axis of length n: [(state, ('int', term) | ('map', count, fn) | Exc)]"""
    v = eng.val(st, k)
    if isinstance(v, P) and v.ty in (INT, BOOL):
        return [(s, r if isinstance(r, Exc) else ('int', r)) for s, r in eng.norm_index(st, to_int(v.t), n)]
    if isinstance(v, ConcV) and v.kind == 'slice':
        def bnd(x, d):
            x = eng.val(st, x)
            if isinstance(x, NoneV): return d
            t = to_int(x.t)
            c = int_value(t)
            if c is not None and c >= 0: return z3.If(t > n, n, t)
            return z3.If(t < 0, z3.If(t + n < 0, IV(0), t + n), z3.If(t > n, n, t))
        stp = eng.val(st, v.step)
        if isinstance(stp, NoneV) or (is_conc(stp) and conc(stp) == 1):
            lo, hi = z3.simplify(bnd(v.lo, IV(0))), z3.simplify(bnd(v.hi, n))
            if int_value(lo) == 0 and isinstance(eng.val(st, v.hi), NoneV): return [(st, ('map', n, lambda i: i))]
            return [(st, ('map', z3.simplify(z3.If(hi > lo, hi - lo, IV(0))), lambda i: lo + i))]
        if is_conc(stp) and conc(stp) == -1 and isinstance(eng.val(st, v.lo), NoneV) and isinstance(eng.val(st, v.hi), NoneV):
            return [(st, ('map', n, lambda i: n - 1 - i))]
        raise Unsupported('slice step')
    if isinstance(v, ListV): v = list_arr(eng, st, eng.snap(st, v))
    if isinstance(v, ArrV) and len(v.shape) == 1:
        if v.dt == BOOL:
            out = []
            for s, ok in eng.split(st, v.shape[0] == n):
                if not ok: out.append((s, Exc('IndexError', 'mask'))); continue
                m, pos, inv, _ = filt(eng, s, v)
                out.append((s, ('map', m, pos)))
            return out
        if v.dt == INT or int_value(v.shape[0]) == 0:
            i = fi()
            get = v.get
            if int_value(v.shape[0]) == 0: get = lambda i: IV(0)
            if eng.check_valid(st, z3.Implies(rng(i, v.shape[0]), rng(get(i), n)), 3.0) is True:
                return [(st, ('map', v.shape[0], get))]
            out = []
            i = fi()
            for s, ok in eng.split(st, z3.ForAll([i], z3.Implies(rng(i, v.shape[0]), z3.And(-n <= get(i), get(i) < n)))):
                if not ok: out.append((s, Exc('IndexError', 'index array'))); continue
                if eng.check_valid(s, z3.Implies(rng(i, v.shape[0]), get(i) >= 0), 2.0) is True: out.append((s, ('map', v.shape[0], get)))
                else: out.append((s, ('map', v.shape[0], lambda t: z3.If(get(t) < 0, get(t) + n, get(t)))))
            return out
    raise Unsupported('array index %r' % (v,))


def is_fancy(eng, st, k):
    return isinstance(eng.val(st, k), (ListV, ArrV))


def index(eng, st, o, a, k):
    """a[k] as a value (ArrV or P)"""
    kv = eng.val(st, k)
    ks = kv.items if isinstance(kv, TupV) else [k]
    if a.kind == 'sp' and a.fmt == 'coo': return [(st, Exc('TypeError', 'coo_matrix is not subscriptable'))]
    if isinstance(kv, ArrV) and len(kv.shape) == 2:
        raise Unsupported('two-dimensional mask')
    if len(ks) > len(a.shape): return [(st, Exc('IndexError', 'too many indices'))]
    if any(isinstance(eng.val(st, x), NoneV) for x in ks): return [(st, Exc('ValueError', 'new axis'))]
    if len(a.shape) == 1:
        out = []
        for s, r in axis_index(eng, st, ks[0], a.shape[0]):
            if isinstance(r, Exc): out.append((s, r))
            elif r[0] == 'int': out.append((s, P(a.dt, a.get(r[1]))))
            else:
                get = lambda i, f=r[2]: a.get(f(i))
                kv0 = eng.val(s, ks[0])
                if isinstance(kv0, ConcV) and kv0.kind == 'slice':
                    i = fi()
                    lo = z3.simplify(r[2](i) - i)
                    tg = L.index_terms(a.get(i), i)
                    if int_value(lo) is None and not mentions_const(lo, i) and tg and all(z3.is_app(x) and x.num_args() == 1 and x.arg(0).eq(i) for x in tg[:1]):
                        # a name for the slice, so that membership facts about the whole transfer in both directions
                        g = eng.fresh_fn(s, 'slice', z3.IntSort(), a.dt.sort)
                        eng.assume(s, z3.ForAll([i], z3.Implies(rng(i, r[1]), g(i) == a.get(lo + i)), patterns=[g(i)]),
                                   forall_pat([i], z3.Implies(z3.And(lo <= i, i < lo + r[1]), g(i - lo) == a.get(i)), tg[:1]))
                        get = g
                out.append((s, mk(eng, s, nd([r[1]], get, a.dt, view=True))))
        return out
    if len(ks) == 1: ks = [ks[0], ConcV('slice', lo=NONEV, hi=NONEV, step=NONEV)]
    both = is_fancy(eng, st, ks[0]) and is_fancy(eng, st, ks[1])
    out = []
    for s, r in axis_index(eng, st, ks[0], a.shape[0]):
        if isinstance(r, Exc): out.append((s, r)); continue
        for s2, c in axis_index(eng, s, ks[1], a.shape[1]):
            if isinstance(c, Exc): out.append((s2, c)); continue
            if r[0] == 'int' and c[0] == 'int': out.append((s2, P(a.dt, a.get(r[1], c[1])))); continue
            if a.kind == 'nd':
                if both:
                    for s3, ok in eng.split(s2, r[1] == c[1]):
                        out.append((s3, mk(eng, s3, nd([r[1]], lambda i, f=r[2], g=c[2]: a.get(f(i), g(i)), a.dt)) if ok else Exc('IndexError', 'shape mismatch')))
                    continue
                if r[0] == 'int': v = nd([c[1]], lambda j, q=r[1], g=c[2]: a.get(q, g(j)), a.dt, view=True)
                elif c[0] == 'int': v = nd([r[1]], lambda i, f=r[2], q=c[1]: a.get(f(i), q), a.dt, view=True)
                else: v = nd([r[1], c[1]], lambda i, j, f=r[2], g=c[2]: a.get(f(i), g(j)), a.dt, view=True)
                if a.extra.get('npmatrix'): raise Unsupported('indexing numpy.matrix')
                out.append((s2, mk(eng, s2, v)))
                continue
            if both: raise Unsupported('pairs of indices of a sparse matrix')
            rn, rf = (IV(1), lambda i, q=r[1]: q) if r[0] == 'int' else r[1:]
            cn, cf = (IV(1), lambda j, q=c[1]: q) if c[0] == 'int' else c[1:]
            out.append((s2, mk(eng, s2, sp([rn, cn], lambda i, j, f=rf, g=cf: a.get(f(i), g(j)), lambda i, j, f=rf, g=cf: a.stored(f(i), g(j)), a.dt, a.fmt))))
    return out


def mk(eng, st, v): return eng.alloc(st, v) if isinstance(v, ArrV) else v


def a_getitem(eng, st, o, a, k): return index(eng, st, o, A(eng, st, o), a[0])


def a_setitem(eng, st, o, args, kw):
    a = A(eng, st, o)
    k, x = args
    kv = eng.val(st, k)
    if a.extra.get('view'): raise Unsupported('write into an array slice')
    ks = kv.items if isinstance(kv, TupV) else [k]
    xv = eng.val(st, x)
    out = []
    oldw = a.extra.get('w') or (lambda *ix: z3.BoolVal(False))

    def write(s, match, val, dt):
        if a.dt == INT and dt == REAL: raise Unsupported('float written into an integer array')
        new = a.with_(get=lambda *ix: z3.If(match(*ix), cvt(val(*ix), dt, a.dt), a.get(*ix)), w=lambda *ix: z3.Or(oldw(*ix), match(*ix)))
        for q in ('enum', 'lst', 'filt', 'role'): new.extra.pop(q, None)
        if a.kind == 'sp':
            new.stored = lambda *ix: z3.Or(a.stored(*ix), match(*ix))
        eng.write(s, o, new)
        eng.note_overwrite(s, o, None)
        out.append((s, None))

    if isinstance(kv, ArrV) and len(kv.shape) == len(a.shape) and kv.dt == BOOL:
        if not isinstance(xv, P): raise Unsupported('masked assignment of an array')
        write(st, kv.get, lambda *ix: xv.t, xv.ty)
        return out
    if len(a.shape) == 1:
        for s, r in axis_index(eng, st, ks[0], a.shape[0]):
            if isinstance(r, Exc): out.append((s, r)); continue
            if r[0] == 'int':
                xp = scalar(eng, s, x)
                write(s, lambda i, q=r[1]: i == q, lambda i: xp.t, xp.ty)
            else: raise Unsupported('slice assignment')
        return out
    if len(ks) == 1: ks = [ks[0], ConcV('slice', lo=NONEV, hi=NONEV, step=NONEV)]
    both = is_fancy(eng, st, ks[0]) and is_fancy(eng, st, ks[1])
    for s, r in axis_index(eng, st, ks[0], a.shape[0]):
        if isinstance(r, Exc): out.append((s, r)); continue
        for s2, c in axis_index(eng, s, ks[1], a.shape[1]):
            if isinstance(c, Exc): out.append((s2, c)); continue
            if r[0] == 'int' and c[0] == 'int':
                xp = scalar(eng, s2, x)
                write(s2, lambda i, j, q=r[1], p=c[1]: z3.And(i == q, j == p), lambda i, j: xp.t, xp.ty)
            elif both and scatter_rows(eng, s2, ks, xv, a) is not None:
                val, dt = scatter_rows(eng, s2, ks, xv, a)
                write(s2, lambda i, j: z3.And(rng(i, a.shape[0]), rng(j, a.shape[1])), val, dt)
            elif both:
                n = r[1]
                D, w = L.exists_iter(eng, s2, TTup(INT, INT), lambda q, t, f=r[2], g=c[2]: z3.And(q.items[0].t == f(t), q.items[1].t == g(t)), n, last=True)
                key = lambda i, j: TupV([P(INT, i), P(INT, j)])
                xa = xv if isinstance(xv, ArrV) else None
                if xa is not None and not eng.known(s2, xa.shape[0] == n): raise Unsupported('scatter of another length')
                write(s2, lambda i, j: D(key(i, j)), (lambda i, j: xa.get(w(key(i, j)))) if xa is not None else (lambda i, j: xv.t), (xa or xv).dt if xa is not None else xv.ty)
            elif r[0] == 'int' and c[0] == 'map' and tr(c[1] == a.shape[1]):
                if isinstance(xv, P): write(s2, lambda i, j, q=r[1]: i == q, lambda i, j: xv.t, xv.ty)
                else:
                    xa = to_arr(eng, s2, x)
                    if len(xa.shape) != 1: raise Unsupported('row assignment of a matrix')
                    if not eng.known(s2, xa.shape[0] == a.shape[1]): raise Unsupported('row of another length')
                    write(s2, lambda i, j, q=r[1]: i == q, lambda i, j: xa.get(j), xa.dt)
            else: raise Unsupported('array slice assignment')
    return out


def scatter_rows(eng, st, ks, xv, a):
    """a[R.ravel(), C.ravel()] = V.ravel() where R(i, j) = i and C(i, .) is a permutation with a known inverse: the new
    cells (value function), or None when the premises cannot be shown"""
    ra, ca = [eng.val(st, x) for x in ks]
    va = xv if isinstance(xv, ArrV) else None
    if not all(isinstance(x, ArrV) and x.extra.get('ravel') is not None for x in (ra, ca)): return None
    if va is not None and va.extra.get('ravel') is None: return None
    Rm, Cm, Vm = ra.extra['ravel'], ca.extra['ravel'], va.extra['ravel'] if va is not None else None
    if 'perm' not in Cm.extra: return None
    p, q, ax = Cm.extra['perm']
    if ax != 1: return None
    m, n = a.shape
    i, j = fi('i'), fi('j')
    inr = z3.And(rng(i, m), rng(j, n))
    ok = [x.shape[k] == (m, n)[k] for x in (Rm, Cm) + ((Vm,) if Vm is not None else ()) for k in (0, 1)]
    ok += [z3.Implies(inr, Rm.get(i, j) == i), z3.Implies(inr, Cm.get(i, j) == p(i, j)),
           z3.Implies(inr, z3.And(rng(q(i, j), n), p(i, q(i, j)) == j)), z3.Implies(inr, q(i, p(i, j)) == j)]
    if not all(eng.check_valid(st, x, 3.0) is True for x in ok): return None
    if Vm is None: return (lambda x, y: xv.t), xv.ty
    return (lambda x, y: Vm.get(x, q(x, y))), Vm.dt


def np_delete(eng, st, args, kw):
    a = to_arr(eng, st, args[0])
    k = eng.val(st, args[1])
    if len(a.shape) != 1 or not isinstance(k, P) or k.ty != INT or len(args) > 2 or kw: raise Unsupported('numpy.delete')
    out = []
    for s, r in eng.norm_index(st, k.t, a.shape[0]):
        if isinstance(r, Exc): out.append((s, r)); continue
        out.append((s, eng.alloc(s, nd([a.shape[0] - 1], lambda i, r=r: a.get(z3.If(i < r, i, i + 1)), a.dt))))
    return out


# ------------------------------------------------------------------------------------------- arithmetic
def binop(eng, st, op, x, y):
    a, b = eng.val(st, x), eng.val(st, y)
    if isinstance(a, (ListV,)): a = to_arr(eng, st, x)
    if isinstance(b, (ListV,)): b = to_arr(eng, st, y)
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        if op == 'Mult' and (a.kind == 'sp' or b.kind == 'sp' or a.extra.get('npmatrix') or b.extra.get('npmatrix')):
            return dot(eng, st, x, [y], {})
        if op == 'MatMult': return dot(eng, st, x, [y], {})
        if op in ('BitAnd', 'BitOr') and a.dt == BOOL and b.dt == BOOL:
            f = z3.And if op == 'BitAnd' else z3.Or
            return same_shape(eng, st, a, b, lambda s: nd(a.shape, lambda *ix: f(a.get(*ix), b.get(*ix)), BOOL))
        if a.kind == 'sp' and b.kind == 'sp':
            if op not in ('Add', 'Sub'): raise Unsupported('%s of sparse matrices' % op)
            dt = join_ty(a.dt, b.dt)
            if dt == BOOL: raise Unsupported('arithmetic of boolean matrices')
            g = lambda i, j: cvt(a.get(i, j), a.dt, dt) + cvt(b.get(i, j), b.dt, dt) if op == 'Add' else cvt(a.get(i, j), a.dt, dt) - cvt(b.get(i, j), b.dt, dt)
            # scipy drops entries whose sum is zero
            return same_shape(eng, st, a, b, lambda s: sp(a.shape, g, lambda i, j: z3.And(z3.Or(a.stored(i, j), b.stored(i, j)), g(i, j) != zero(dt)), dt))
        if a.kind == 'nd' and b.kind == 'nd':
            if len(a.shape) == len(b.shape):
                if len(a.shape) == 2 and (int_value(b.shape[1]) == 1 or int_value(b.shape[0]) == 1) and not (int_value(a.shape[1]) == 1):
                    col = int_value(b.shape[1]) == 1
                    bb = b
                    f = (lambda i, j: bb.get(i, IV(0))) if col else (lambda i, j: bb.get(IV(0), j))
                    ax = 0 if col else 1
                    return elementwise(eng, st, op, a, nd(a.shape, f, b.dt), a.shape[ax] == b.shape[ax])
                return elementwise(eng, st, op, a, b)
            if len(a.shape) == 2 and len(b.shape) == 1:
                return elementwise(eng, st, op, a, nd(a.shape, lambda i, j: b.get(j), b.dt), a.shape[1] == b.shape[0])
            if len(a.shape) == 1 and len(b.shape) == 2:
                return elementwise(eng, st, op, nd(b.shape, lambda i, j: a.get(j), a.dt), b, a.shape[0] == b.shape[1])
        if a.kind == 'sp' and b.kind == 'nd' and op in ('Add', 'Sub', 'Div'):
            if op == 'Div': raise Unsupported('sparse / dense')
            return binop(eng, st, op, eng.alloc(st, nd(a.shape, a.get, a.dt)), y)
        raise Unsupported('%s of %r and %r' % (op, a, b))
    if isinstance(a, ArrV) and isinstance(b, P):
        f = scal(op, b, False)
        if a.kind == 'sp':
            if op not in ('Mult', 'Div'): raise Unsupported('%s of a sparse matrix and a number' % op)
        return lift(eng, st, a, f, b.ty if op != 'Div' else REAL, op, b.t if op in ('Div', 'FloorDiv', 'Mod') else None)
    if isinstance(a, P) and isinstance(b, ArrV):
        if b.kind == 'sp' and op != 'Mult': raise Unsupported('%s of a number and a sparse matrix' % op)
        if op == 'Div':
            g = lambda *ix: to_real(cvt(a.t, a.ty, REAL)) / cvt(b.get(*ix), b.dt, REAL)
            return eng.alloc(st, nd(b.shape, g, REAL))
        return lift(eng, st, b, scal(op, a, True), a.ty, op, None)
    raise Unsupported('%s of %r and %r' % (op, a, b))


def scal(op, p, left):
    def f(t, dt, out):
        x, y = cvt(t, dt, out), cvt(p.t, p.ty, out)
        if left: x, y = y, x
        return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y, 'FloorDiv': lambda: x / y,
                'Pow': lambda: power(x, p)}[op]()
    return f


def power(x, p):
    c = int_value(p.t) if p.ty == INT else (real_value(p.t) if p.ty == REAL else None)
    if c is None or int(c) != c or not 1 <= int(c) <= 3: raise Unsupported('power of an array')
    r = x
    for _ in range(int(c) - 1): r = r * x
    return r


def lift(eng, st, a, f, ty, op, div):
    out = REAL if op == 'Div' else join_ty(a.dt, ty)
    if out == BOOL: out = INT
    g = lambda *ix: f(a.get(*ix), a.dt, out)
    return eng.alloc(st, ArrV(a.kind, a.shape, g, out, a.stored, a.fmt, **{k: v for k, v in a.extra.items() if k in ('enum', 'npmatrix', 'role')}))


def same_shape(eng, st, a, b, f):
    out = []
    c = z3.And(*[x == y for x, y in zip(a.shape, b.shape)])
    for s, ok in eng.split(st, c):
        out.append((s, mk(eng, s, f(s)) if ok else Exc('ValueError', 'inconsistent shapes')))
    return out


def elementwise(eng, st, op, a, b, cond=None):
    dt = REAL if op == 'Div' else join_ty(a.dt, b.dt)
    if dt == BOOL and op not in ('Mult',): dt = INT
    c = cond if cond is not None else z3.And(*[x == y for x, y in zip(a.shape, b.shape)])
    def g(*ix):
        if dt == BOOL: return z3.And(a.get(*ix), b.get(*ix))
        x, y = cvt(a.get(*ix), a.dt, dt), cvt(b.get(*ix), b.dt, dt)
        if a.dt == BOOL and op == 'Mult': return z3.If(a.get(*ix), y, zero(dt))
        if b.dt == BOOL and op == 'Mult': return z3.If(b.get(*ix), x, zero(dt))
        return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y}[op]()
    if op not in ('Add', 'Sub', 'Mult', 'Div'): raise Unsupported('elementwise %s' % op)
    out = []
    ex = {'npmatrix': True} if a.extra.get('npmatrix') or b.extra.get('npmatrix') else {}
    for s, ok in eng.split(st, c):
        out.append((s, eng.alloc(s, nd(a.shape, g, dt, **ex)) if ok else Exc('ValueError', 'operands could not be broadcast')))
    return out


CMP = {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y,
       'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y}
FLIP = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE', 'Eq': 'Eq', 'NotEq': 'NotEq'}


def compare(eng, st, op, x, y):
    a, b = eng.val(st, x), eng.val(st, y)
    if isinstance(a, P) and isinstance(b, ArrV): return compare(eng, st, FLIP[op], y, x)
    if isinstance(b, P):
        ty = join_ty(a.dt, b.ty)
        if ty == BOOL: ty = INT
        bt = cvt(b.t, b.ty, ty)
        c = lambda *ix: CMP[op](cvt(a.get(*ix), a.dt, ty), bt)
        if a.kind == 'nd': return eng.alloc(st, nd(a.shape, c, BOOL, **({'npmatrix': True} if a.extra.get('npmatrix') else {})))
        out = []
        z = zero(ty)
        for s, isz in eng.split(st, bt == z):
            if isz and op in ('LtE', 'GtE'): out.append((s, Exc('NotImplementedError', '>= and <= don\'t work with 0.'))); continue
            for s2, all_ in eng.split(s, CMP[op](z, bt)):
                if all_: g = c                        # implicit zeros satisfy the comparison as well
                else: g = lambda i, j: z3.And(a.stored(i, j), c(i, j))
                out.append((s2, eng.alloc(s2, sp(a.shape, g, g, BOOL))))
        return out
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        ty = join_ty(a.dt, b.dt)
        if ty == BOOL: ty = INT
        c = lambda *ix: CMP[op](cvt(a.get(*ix), a.dt, ty), cvt(b.get(*ix), b.dt, ty))
        if a.kind == 'sp' and b.kind == 'sp':
            if op not in ('NotEq', 'Lt', 'Gt'): raise Unsupported('%s of sparse matrices' % op)
            return same_shape(eng, st, a, b, lambda s: sp(a.shape, c, c, BOOL))
        if a.kind == 'nd' and b.kind == 'nd' and len(a.shape) == len(b.shape):
            return same_shape(eng, st, a, b, lambda s: nd(a.shape, c, BOOL))
    raise Unsupported('comparison of %r and %r' % (a, b))


def invert(eng, st, x):
    a = A(eng, st, x)
    if a.dt != BOOL or a.kind != 'nd': raise Unsupported('~ of a numeric array')
    return eng.alloc(st, nd(a.shape, lambda *ix: z3.Not(a.get(*ix)), BOOL))


def negate(eng, st, x):
    a = A(eng, st, x)
    return eng.alloc(st, ArrV(a.kind, a.shape, lambda *ix: -a.get(*ix), a.dt, a.stored, a.fmt))


def map_arr(eng, st, x, f, dt=None):
    a = A(eng, st, x)
    return eng.alloc(st, ArrV(a.kind, a.shape, lambda *ix: f(a.get(*ix)), dt or a.dt, a.stored, a.fmt))


# ------------------------------------------------------------------------------------------- reductions
def number(a, f=None):
    """element as a number"""
    dt = INT if a.dt == BOOL else a.dt
    return (lambda *ix: cvt(a.get(*ix), a.dt, dt)), dt


def row_sum(eng, st, get, n, i_name='r'):
    """fn i -> sum_{j<n} get(i, j)"""
    i, j = fi(i_name), fi('j')
    d = eng.new_sum(list(st.ctx) + [i], j, get(i, j))
    return lambda t: d.at(list(st.ctx) + [t], n)


def vec_sum(eng, st, get, n):
    i = fi('i')
    d = eng.new_sum(list(st.ctx), i, get(i))
    return d.at(list(st.ctx), n)


def sum_axis(eng, st, a, axis, get, dt):
    if len(a.shape) == 1: return P(dt, vec_sum(eng, st, get, a.shape[0]))
    m, n = a.shape
    if axis is None:
        rs = row_sum(eng, st, get, n)
        return P(dt, vec_sum(eng, st, rs, m))
    if axis in (1, -1):
        rs = row_sum(eng, st, get, n)
        return m, rs
    if axis in (0, -2):
        cs = row_sum(eng, st, lambda j, i: get(i, j), m)
        return n, cs
    raise Unsupported('axis')


def axis_arg(eng, st, args, kw, pos=0):
    """axis argument: [(state, None|0|1)] (symbolic axes are split)"""
    x = lib.kwarg(args, kw, pos, 'axis', NONEV)
    v = eng.val(st, x)
    if isinstance(v, NoneV): return [(st, None)]
    if isinstance(v, OptV):
        out = []
        for s, b in eng.split(st, v.isnone):
            out += [(s, None)] if b else axis_arg(eng, s, [v.val], {}, 0)
        return out
    if is_conc(v): return [(st, conc(v))]
    out = []
    rest = st
    for c in (0, 1):
        nxt = None
        for s, b in eng.split(rest, v.t == c):
            if b: out.append((s, c))
            else: nxt = s
        if nxt is None: return out
        rest = nxt
    raise Unsupported('symbolic axis')


def m_sum(eng, st, o, args, kw):
    a = A(eng, st, o)
    out = []
    for s, ax in axis_arg(eng, st, args, kw):
        g, dt = number(a)
        r = sum_axis(eng, s, a, ax, g, dt)
        if isinstance(r, P): out.append((s, r)); continue
        out.append((s, reduced(eng, s, a, ax, r, dt)))
    return out


def reduced(eng, s, a, ax, r, dt):
    n, f = r
    if a.kind == 'sp' or a.extra.get('npmatrix'):
        if ax in (1, -1): v = nd([n, 1], lambda i, j: f(i), dt, npmatrix=True)
        else: v = nd([1, n], lambda i, j: f(j), dt, npmatrix=True)
    else: v = nd([n], f, dt)
    return eng.alloc(s, v)


def m_mean(eng, st, o, args, kw):
    a = A(eng, st, o)
    out = []
    for s, ax in axis_arg(eng, st, args, kw):
        g, dt = number(a)
        h = lambda *ix: to_real(g(*ix))
        if a.kind == 'sp': raise Unsupported('mean of a sparse matrix')
        if len(a.shape) == 1 or ax is None:
            n = a.shape[0] if len(a.shape) == 1 else a.shape[0] * a.shape[1]
            out.append((s, P(REAL, sum_axis(eng, s, a, ax if len(a.shape) > 1 else None, h, REAL).t / z3.ToReal(n))))
        else:
            n, f = sum_axis(eng, s, a, ax, h, REAL)
            d = z3.ToReal(a.shape[1] if ax in (1, -1) else a.shape[0])
            out.append((s, eng.alloc(s, nd([n], lambda i: f(i) / d, REAL))))
    return out


def m_getnnz(eng, st, o, args, kw):
    a = A(eng, st, o)
    out = []
    for s, ax in axis_arg(eng, st, args, kw):
        g = lambda i, j: z3.If(a.stored(i, j), IV(1), IV(0))
        if ax is None: out.append((s, nnz(eng, s, o))); continue
        n, f = sum_axis(eng, s, a, ax, g, INT)
        out.append((s, eng.alloc(s, nd([n], f, INT))))
    return out


def nnz(eng, st, o):
    a = A(eng, st, o)
    return P(INT, sp_enum(eng, st, a).n)


def count_nonzero(eng, st, args, kw):
    a = to_arr(eng, st, args[0])
    if lib.kwarg(args, kw, 1, 'axis') is not None: raise Unsupported('count_nonzero along an axis')
    g = lambda *ix: z3.If(a.get(*ix) != zero(a.dt), IV(1), IV(0))
    return sum_axis(eng, st, a, None, g, INT)


def builtin_sum(eng, st, x):
    a = A(eng, st, x)
    if len(a.shape) != 1: raise Unsupported('sum() of a matrix')
    g, dt = number(a)
    return P(dt, vec_sum(eng, st, g, a.shape[0]))


def dot(eng, st, o, args, kw):
    a, b = A(eng, st, o), A(eng, st, args[0])
    if len(a.shape) != 2 or len(b.shape) != 2: raise Unsupported('product of vectors')
    dt = join_ty(a.dt, b.dt)
    if dt == BOOL: dt = INT
    i, j, k = fi('i'), fi('j'), fi('k')
    term = cvt(a.get(i, k), a.dt, dt) * cvt(b.get(k, j), b.dt, dt)
    out = []
    for s, ok in eng.split(st, a.shape[1] == b.shape[0]):
        if not ok: out.append((s, Exc('ValueError', 'dimension mismatch'))); continue
        d = eng.new_sum(list(s.ctx) + [i, j], k, term)
        get = lambda x, y: d.at(list(s.ctx) + [x, y], a.shape[1])
        if a.kind == 'sp' and b.kind == 'sp':
            out.append((s, eng.alloc(s, sp([a.shape[0], b.shape[1]], get, lambda x, y: get(x, y) != zero(dt), dt))))
        else: out.append((s, eng.alloc(s, nd([a.shape[0], b.shape[1]], get, dt))))
    return out


def m_multiply(eng, st, o, args, kw):
    a = A(eng, st, o)
    b = eng.val(st, args[0])
    if isinstance(b, P): return binop(eng, st, 'Mult', o, args[0])
    dt = join_ty(a.dt, b.dt)
    def g(i, j):
        if a.dt == BOOL and b.dt == BOOL: return z3.And(a.get(i, j), b.get(i, j))
        if b.dt == BOOL: return z3.If(b.get(i, j), a.get(i, j), zero(dt))
        if a.dt == BOOL: return z3.If(a.get(i, j), b.get(i, j), zero(dt))
        return cvt(a.get(i, j), a.dt, dt) * cvt(b.get(i, j), b.dt, dt)
    if a.kind == 'nd': raise Unsupported('ndarray.multiply')
    bst = b.stored or (lambda i, j: z3.BoolVal(True))
    return same_shape(eng, st, a, b, lambda s: sp(a.shape, g, lambda i, j: z3.And(a.stored(i, j), bst(i, j), g(i, j) != zero(dt)), dt, 'csr' if b.kind == 'sp' else 'coo'))


# ------------------------------------------------------------------------------------------- shapes and conversions
def transpose(eng, st, o, args=(), kw=None):
    a = A(eng, st, o)
    if len(a.shape) == 1: return o
    fmt = {'csr': 'csc', 'csc': 'csr'}.get(a.fmt, a.fmt)
    st_ = None if a.stored is None else (lambda i, j: a.stored(j, i))
    return eng.alloc(st, ArrV(a.kind, (a.shape[1], a.shape[0]), lambda i, j: a.get(j, i), a.dt, st_, fmt))


def to_fmt(fmt):
    def f(eng, st, o, args, kw):
        a = A(eng, st, o)
        r = a.with_(fmt=fmt)
        e = a.extra.get('enum')
        if (a.fmt, fmt) in (('csr', 'coo'), ('coo', 'csr'), ('csr', 'csr'), ('coo', 'coo')):
            sp_enum(eng, st, a)
            r.extra['enum'] = a.extra['enum']
        else: r.extra.pop('enum', None)
        r.extra.pop('w', None)
        return eng.alloc(st, r)
    return f


def toarray(eng, st, o, args, kw):
    a = A(eng, st, o)
    return eng.alloc(st, nd(a.shape, a.get, a.dt))


def todense(eng, st, o, args, kw):
    a = A(eng, st, o)
    return eng.alloc(st, nd(a.shape, a.get, a.dt, npmatrix=True))


def m_copy(eng, st, o, args, kw):
    a = A(eng, st, o)
    ex = {k: v for k, v in a.extra.items() if k in ('enum', 'npmatrix', 'lst')}
    return eng.alloc(st, ArrV(a.kind, a.shape, a.get, a.dt, a.stored, a.fmt, **ex))


def astype(eng, st, o, args, kw):
    a = A(eng, st, o)
    return eng.alloc(st, retype(a.with_(), dtype_of(eng, st, lib.kwarg(args, kw, 0, 'dtype'))))


def ravel_fns(eng):
    m, n, p, i, j = [fi(x) for x in 'mnpij']
    I_ = z3.IntSort()
    new = 'ravel_i' not in eng.ufs
    ri, rj, rp, sz = eng.uf('ravel_i', I_, I_, I_, I_), eng.uf('ravel_j', I_, I_, I_, I_), eng.uf('ravel_p', I_, I_, I_, I_, I_), eng.uf('ravel_size', I_, I_, I_)
    if new:
        eng.axioms += [z3.ForAll([m, n, p], z3.Implies(rng(p, sz(m, n)), z3.And(rng(ri(m, n, p), m), rng(rj(m, n, p), n), rp(m, n, ri(m, n, p), rj(m, n, p)) == p)), patterns=[ri(m, n, p)]),
                       z3.ForAll([m, n, p], z3.Implies(rng(p, sz(m, n)), z3.And(rng(ri(m, n, p), m), rng(rj(m, n, p), n), rp(m, n, ri(m, n, p), rj(m, n, p)) == p)), patterns=[rj(m, n, p)]),
                       z3.ForAll([m, n, i, j], z3.Implies(z3.And(rng(i, m), rng(j, n)), z3.And(rng(rp(m, n, i, j), sz(m, n)), ri(m, n, rp(m, n, i, j)) == i, rj(m, n, rp(m, n, i, j)) == j)), patterns=[rp(m, n, i, j)]),
                       z3.ForAll([m, n], sz(m, n) >= 0, patterns=[sz(m, n)])]
    return ri, rj, rp, sz


def ravel(eng, st, o, args=(), kw=None):
    a = A(eng, st, o)
    if len(a.shape) == 1: return m_copy(eng, st, o, [], {})
    if a.extra.get('npmatrix'):
        m, n = a.shape
        if int_value(m) == 1: return eng.alloc(st, a.with_())
        if int_value(n) == 1: return eng.alloc(st, nd([1, m], lambda i, j: a.get(j, i), a.dt, npmatrix=True))
        raise Unsupported('ravel of numpy.matrix')
    m, n = a.shape
    if int_value(m) == 1: return eng.alloc(st, nd([n], lambda i: a.get(IV(0), i), a.dt))
    if int_value(n) == 1: return eng.alloc(st, nd([m], lambda i: a.get(i, IV(0)), a.dt))
    ri, rj, rp, sz = ravel_fns(eng)
    return eng.alloc(st, nd([sz(m, n)], lambda p: a.get(ri(m, n, p), rj(m, n, p)), a.dt, ravel=a))


def tolist(eng, st, o, args, kw):
    a = A(eng, st, o)
    if len(a.shape) == 1:
        l = a.extra.get('lst')
        return eng.alloc(st, ListV(a.shape[0], lambda i: P(a.dt, a.get(i)), a.dt))
    return eng.alloc(st, ListV(a.shape[0], lambda i: ListV(a.shape[1], lambda j: P(a.dt, a.get(i, j)), a.dt), TList(a.dt)))


def a_iter(eng, st, o, args, kw):
    a = A(eng, st, o)
    if a.kind == 'sp': raise Unsupported('iteration over a sparse matrix')
    if len(a.shape) == 1: return lib.view(a.shape[0], lambda i, s=None: P(a.dt, a.get(i)))
    return lib.view(a.shape[0], lambda i, s=None: nd([a.shape[1]], lambda j: a.get(i, j), a.dt, view=True))


def np_array(eng, st, args, kw):
    dt = dtype_of(eng, st, lib.kwarg(args, kw, 1, 'dtype'))
    a = to_arr(eng, st, args[0], dt)
    if a.kind == 'sp': raise Unsupported('np.array of a sparse matrix')
    return eng.alloc(st, nd(a.shape, a.get, a.dt, **{k: v for k, v in a.extra.items() if k in ('lst', 'enum', 'role')}))


def np_asarray(eng, st, args, kw):
    v = eng.val(st, args[0])
    dt = dtype_of(eng, st, lib.kwarg(args, kw, 1, 'dtype'))
    if isinstance(v, ArrV) and not v.extra.get('npmatrix') and (dt is None or dt == v.dt): return args[0]
    return np_array(eng, st, args, kw)


def np_const(c):
    def f(eng, st, args, kw):
        shp = shape_of(eng, st, lib.kwarg(args, kw, 0, 'shape'))
        dt = dtype_of(eng, st, lib.kwarg(args, kw, 1, 'dtype'), REAL)
        t = z3.BoolVal(bool(c)) if dt == BOOL else (z3.RealVal(c) if dt == REAL else z3.IntVal(c))
        return eng.alloc(st, nd(shp, lambda *ix: t, dt))
    return f


def np_arange(eng, st, args, kw):
    xs = [scalar(eng, st, x).t for x in args]
    lo, hi = (IV(0), xs[0]) if len(xs) == 1 else xs[:2]
    if len(xs) > 2: raise Unsupported('arange step')
    n = z3.simplify(z3.If(hi > lo, hi - lo, IV(0)))
    if eng.known(st, hi >= lo): n = z3.simplify(hi - lo)
    return eng.alloc(st, nd([n], lambda i: z3.simplify(lo + i), INT))


def np_concat(eng, st, args, kw):
    iv = eng.iterview(st, args[0])
    if iv.items is None: raise Unsupported('concatenation of a symbolic number of arrays')
    xs = [A(eng, st, x) for x in iv.items]
    ax = axis_arg(eng, st, args, kw, 1)
    if len(ax) != 1: raise Unsupported('symbolic axis')
    axis = ax[0][1] or 0
    return stack(eng, st, xs, axis)


def stack(eng, st, xs, axis, fmt=None):
    dt = xs[0].dt
    for x in xs[1:]: dt = join_ty(dt, x.dt)
    d = len(xs[0].shape)
    if any(len(x.shape) != d for x in xs): raise Unsupported('concatenation of different dimensions')
    off = [IV(0)]
    for x in xs: off.append(z3.simplify(off[-1] + x.shape[axis]))
    def sel(fs):
        def g(*ix):
            k = ix[axis]
            def at(q):
                jx = list(ix); jx[axis] = k - off[q] if q else k
                return fs[q](*jx)
            r = at(len(xs) - 1)
            for q in range(len(xs) - 2, -1, -1): r = z3.If(k < off[q + 1], at(q), r)
            return r
        return g
    get = sel([(lambda *ix, x=x: cvt(x.get(*ix), x.dt, dt)) for x in xs])
    shape = list(xs[0].shape); shape[axis] = off[-1]
    sp_ = any(x.kind == 'sp' for x in xs)
    stored = sel([(x.stored or (lambda *ix: z3.BoolVal(True))) for x in xs]) if sp_ else None
    cond = z3.And(*[xs[0].shape[q] == x.shape[q] for x in xs[1:] for q in range(d) if q != axis]) if d > 1 and len(xs) > 1 else z3.BoolVal(True)
    out = []
    for s, ok in eng.split(st, cond):
        if not ok: out.append((s, Exc('ValueError', 'dimensions must match exactly'))); continue
        out.append((s, eng.alloc(s, sp(shape, get, stored, dt, fmt or ('csr' if all(x.fmt == 'csr' for x in xs) and axis == 0 else 'coo')) if sp_ else nd(shape, get, dt))))
    return out


def sp_stack(axis):
    def f(eng, st, args, kw):
        iv = eng.iterview(st, args[0])
        if iv.items is None: raise Unsupported('stack of a symbolic number of matrices')
        fm = lib.kwarg(args, kw, 1, 'format')
        xs = []
        for x in iv.items:
            a = A(eng, st, x)
            if a.kind == 'nd': a = sp(a.shape, a.get, lambda i, j, a=a: a.get(i, j) != zero(a.dt), a.dt, 'coo')
            xs.append(a)
        return stack(eng, st, xs, axis, str_value(eng.val(st, fm).t) if fm is not None and not isinstance(eng.val(st, fm), NoneV) else None)
    return f


def allclose(eng, st, args, kw):
    a, b = A(eng, st, args[0]), A(eng, st, args[1])
    r = eng.fresh_fn(st, 'close', z3.BoolSort())()
    ix = [fi() for _ in a.shape]
    c = z3.And(*[rng(i, n) for i, n in zip(ix, a.shape)])
    eq = z3.ForAll(ix, z3.Implies(c, cvt(a.get(*ix), a.dt, REAL) == cvt(b.get(*ix), b.dt, REAL)))
    shapes = z3.And(*[x == y for x, y in zip(a.shape, b.shape)])
    out = []
    for s, ok in eng.split(st, shapes):
        if not ok: out.append((s, Exc('ValueError', 'operands could not be broadcast'))); continue
        eng.assume(s, z3.Implies(eq, r))
        tol = [kw[q] for q in ('atol', 'rtol') if q in kw]
        if len(tol) == 2 and all(is_conc(eng.val(s, t)) and conc(eng.val(s, t)) == 0 for t in tol): eng.assume(s, z3.Implies(r, eq))
        s.ghost = dict(s.ghost); s.ghost['allclose'] = s.ghost.get('allclose', ()) + ((r, eq),)
        out.append((s, P(BOOL, r)))
    return out


def np_unique(eng, st, args, kw):
    a = to_arr(eng, st, args[0])
    if len(a.shape) != 1 or a.dt not in (INT, REAL): raise Unsupported('unique of %r' % (a,))
    m = eng.fresh_fn(st, 'uniq', z3.IntSort())()
    u = eng.fresh_fn(st, 'u', z3.IntSort(), a.dt.sort)
    w = eng.fresh_fn(st, 'uw', z3.IntSort(), z3.IntSort())
    v = eng.fresh_fn(st, 'uinv', z3.IntSort(), z3.IntSort())
    j, j2, k = fi('j'), fi('h'), fi('k')
    n = a.shape[0]
    eng.assume(st, m >= 0, m <= n,
               z3.ForAll([j], z3.Implies(rng(j, m), z3.And(rng(w(j), n), a.get(w(j)) == u(j), v(w(j)) == j)), patterns=[u(j)]),
               z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), u(j) < u(j2)), patterns=[z3.MultiPattern(u(j), u(j2))]),
               forall_pat([k], z3.Implies(rng(k, n), z3.And(rng(v(k), m), u(v(k)) == a.get(k))), [v(k)]))
    tg = L.index_terms(a.get(k), k)
    if tg: eng.assume(st, forall_pat([k], z3.Implies(rng(k, n), z3.And(rng(v(k), m), u(v(k)) == a.get(k))), tg[:1]))
    ua = eng.alloc(st, nd([m], u, a.dt))
    if 'return_inverse' in kw and conc(eng.val(st, kw['return_inverse'])): return TupV([ua, eng.alloc(st, nd([n], v, INT))])
    return ua


def permutation(eng, st, n, extra_sorts=(), elem=None):
    """p, q with p(.., i) a permutation of 0..n-1 and q its inverse"""
    p = eng.fresh_fn(st, 'perm', *(list(extra_sorts) + [z3.IntSort(), z3.IntSort()]))
    q = eng.fresh_fn(st, 'permi', *(list(extra_sorts) + [z3.IntSort(), z3.IntSort()]))
    xs = [z3.FreshConst(x, 'x') for x in extra_sorts]
    i = fi()
    b1 = z3.Implies(rng(i, n), z3.And(rng(p(*(xs + [i])), n), q(*(xs + [p(*(xs + [i]))])) == i))
    b2 = z3.Implies(rng(i, n), z3.And(rng(q(*(xs + [i])), n), p(*(xs + [q(*(xs + [i]))])) == i))
    eng.assume(st, z3.ForAll(xs + [i], b1, patterns=[p(*(xs + [i]))]), z3.ForAll(xs + [i], b2, patterns=[q(*(xs + [i]))]))
    if elem is not None and not xs:
        tg = L.index_terms(elem(i), i)
        if tg: eng.assume(st, forall_pat([i], b2, tg[:1]))
    elif elem is not None and len(xs) == 1:
        tg = [t for t in L.index_terms(elem(xs[0], i), i) if mentions_const(t, xs[0])]
        if tg: eng.assume(st, forall_pat(xs + [i], b2, tg[:1]))
    return p, q


def argsort(eng, st, o, args, kw):
    a = to_arr(eng, st, o)
    i, j, j2 = fi('i'), fi('j'), fi('h')
    if len(a.shape) == 1:
        n = a.shape[0]
        p, q = permutation(eng, st, n, elem=a.get)
        eng.assume(st, z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < n), a.get(p(j)) <= a.get(p(j2))), patterns=[z3.MultiPattern(p(j), p(j2))]))
        return eng.alloc(st, nd([n], p, INT))
    ax = axis_arg(eng, st, args, kw)[0][1]
    ax = 1 if ax in (None, -1, 1) else 0
    n = a.shape[ax]
    get = (lambda r, c: a.get(r, c)) if ax == 1 else (lambda r, c: a.get(c, r))
    p, q = permutation(eng, st, n, [z3.IntSort()], elem=get)
    eng.assume(st, z3.ForAll([i, j, j2], z3.Implies(z3.And(rng(i, a.shape[1 - ax]), 0 <= j, j < j2, j2 < n), get(i, p(i, j)) <= get(i, p(i, j2))),
                             patterns=[z3.MultiPattern(p(i, j), p(i, j2))]))
    r = nd(a.shape, p if ax == 1 else (lambda r_, c: p(c, r_)), INT)
    r.extra['perm'] = (p, q, ax)
    return eng.alloc(st, r)


def argmax(least):
    def f(eng, st, o, args, kw):
        a = to_arr(eng, st, o)
        ax = eng.val(st, lib.kwarg(args, kw, 0, 'axis', NONEV))
        better = (lambda x, y: x < y) if least else (lambda x, y: x > y)
        i, j = fi('i'), fi('j')
        out = []
        if len(a.shape) == 1:
            for s, ok in eng.split(st, a.shape[0] >= 1):
                if not ok: out.append((s, Exc('ValueError', 'empty sequence'))); continue
                p = eng.fresh_fn(s, 'arg', z3.IntSort())()
                eng.assume(s, rng(p, a.shape[0]), z3.ForAll([j], z3.Implies(rng(j, a.shape[0]), z3.And(z3.Not(better(a.get(j), a.get(p))), z3.Implies(j < p, better(a.get(p), a.get(j)))))))
                out.append((s, P(INT, p)))
            return out
        if isinstance(ax, NoneV): raise Unsupported('argmax of a flattened matrix')
        k = 1 if conc(ax) in (-1, 1) else 0
        get = (lambda r, c: a.get(r, c)) if k == 1 else (lambda r, c: a.get(c, r))
        n, m = a.shape[1 - k], a.shape[k]
        for s, ok in eng.split(st, m >= 1):
            if not ok: out.append((s, Exc('ValueError', 'empty axis'))); continue
            p = eng.fresh_fn(s, 'arg', z3.IntSort(), z3.IntSort())
            best = get(i, p(i))
            eng.assume(s, z3.ForAll([i], z3.Implies(rng(i, n), rng(p(i), m)), patterns=[p(i)]),
                       forall_pat([i, j], z3.Implies(z3.And(rng(i, n), rng(j, m)), z3.And(z3.Not(better(get(i, j), best)), z3.Implies(j < p(i), better(best, get(i, j))))), [get(i, j)]))
            out.append((s, eng.alloc(s, nd([n], p, INT))))
        return out
    return f


def argpartition(eng, st, o, args, kw):
    a = to_arr(eng, st, o)
    if len(a.shape) != 1: raise Unsupported('argpartition of a matrix')
    n = a.shape[0]
    k = scalar(eng, st, lib.kwarg(args, kw, 0, 'kth')).t
    out = []
    for s, ok in eng.split(st, z3.And(-n <= k, k < n)):
        if not ok: out.append((s, Exc('ValueError', 'kth out of bounds'))); continue
        kk = z3.If(k < 0, k + n, k)
        p, q = permutation(eng, s, n, elem=a.get)
        j = fi('j')
        eng.assume(s, z3.ForAll([j], z3.Implies(rng(j, n), z3.And(z3.Implies(j < kk, a.get(p(j)) <= a.get(p(kk))), z3.Implies(j > kk, a.get(p(j)) >= a.get(p(kk))))), patterns=[p(j)]))
        out.append((s, eng.alloc(s, nd([n], p, INT))))
    return out


def meshgrid(eng, st, args, kw):
    x, y = to_arr(eng, st, args[0]), to_arr(eng, st, args[1])
    shp = [y.shape[0], x.shape[0]]
    return TupV([eng.alloc(st, nd(shp, lambda i, j: x.get(j), x.dt)), eng.alloc(st, nd(shp, lambda i, j: y.get(i), y.dt))])


def fill_diag(eng, st, args, kw):
    o = args[0]
    a = A(eng, st, o)
    v = scalar(eng, st, args[1])
    oldw = a.extra.get('w') or (lambda *ix: z3.BoolVal(False))
    eng.write(st, o, a.with_(get=lambda i, j: z3.If(i == j, cvt(v.t, v.ty, a.dt), a.get(i, j)), w=lambda i, j: z3.Or(oldw(i, j), i == j)))
    return NONEV


def random_choice(eng, st, args, kw):
    a = eng.val(st, args[0])
    n = to_int(a.t) if isinstance(a, P) else None
    src = None
    if n is None:
        src = to_arr(eng, st, args[0]); n = src.shape[0]
    size = scalar(eng, st, lib.kwarg(args, kw, 1, 'size'))
    if size.ty == REAL:
        # numpy accepts only integral sizes
        raise Unsupported('random sample of a real size')
    rep = lib.kwarg(args, kw, 2, 'replace', B(True))
    r = eng.val(st, rep)
    ch = eng.fresh_fn(st, 'choice', z3.IntSort(), z3.IntSort())
    inv = eng.fresh_fn(st, 'choicei', z3.IntSort(), z3.IntSort())
    out = []
    for s, norep in eng.split(st, z3.Not(r.t)):
        bad = z3.Or(size.t < 0, z3.And(norep, size.t > n), z3.And(n == 0, size.t > 0))
        for s2, b in eng.split(s, bad):
            if b: out.append((s2, Exc('ValueError', 'sample larger than population'))); continue
            i = fi()
            eng.assume(s2, z3.ForAll([i], z3.Implies(rng(i, size.t), z3.And(rng(ch(i), n), *( [inv(ch(i)) == i] if norep else []))), patterns=[ch(i)]))
            out.append((s2, eng.alloc(s2, nd([size.t], (lambda k: ch(k)) if src is None else (lambda k: src.get(ch(k))), INT if src is None else src.dt))))
    return out


def minmax(op):
    def f(eng, st, o, args, kw):
        a = A(eng, st, o)
        if len(a.shape) != 1: raise Unsupported('minimum of a matrix')
        return lib.b_minmax(op == 'min')(eng, st, [tolist(eng, st, o, [], {})], {})
    return f


# ------------------------------------------------------------------------------------------- loops over arrays
def loop_effect(eng, base, h, l, Q, P0, valid, pnames):
    """one iteration overwrites the elements where w holds"""
    ix = [fi() for _ in Q.shape]
    w = Q.extra.get('w')
    if w is None:
        if valid(z3.And(*[Q.get(*ix) == P0.get(*ix)])): return ('same', None)
        raise Unsupported('array updated in a way that needs an invariant')
    neut = lambda t: L.sub_family(t, h.fam, lambda fam: L.arbitrary(fam))
    F = ArrV(Q.kind, Q.shape, lambda *jx: neut(Q.get(*jx)), Q.dt)
    fw = lambda *jx: neut(w(*jx))
    same_dom = valid(z3.simplify(fw(*ix)) == w(*ix))
    inr = z3.And(*[rng(i, n) for i, n in zip(ix, Q.shape)])
    if not same_dom or L.term_mentions(fw(*ix), pnames) or L.term_mentions(F.get(*ix), pnames):
        raise Unsupported('array updated in a way that needs an invariant')
    if valid(z3.Implies(z3.And(inr, z3.Not(w(*ix))), Q.get(*ix) == P0.get(*ix))) and valid(z3.Implies(z3.And(inr, w(*ix)), Q.get(*ix) == F.get(*ix))):
        F.extra['w'] = fw
        return ('arr_override', F)
    raise Unsupported('array updated in a way that needs an invariant')


def loop_combine(eng, s, kind, F, pre, i, n, ty):
    if kind != 'arr_override': raise Unsupported('combine %s' % kind)
    pre = eng.snap(s, pre)
    w = F.extra['w']
    kt = TTup(*([INT] * len(F.shape)))
    at = lambda q, t: z3.substitute(w(*[x.t for x in q.items]), (i, t))
    D, W = L.exists_iter(eng, s, kt, at, n, last=True)
    key = lambda ix: TupV([P(INT, x) for x in ix])
    oldw = pre.extra.get('w') or (lambda *ix: z3.BoolVal(False))
    def get(*ix):
        k = key(ix)
        return z3.If(D(k), z3.substitute(F.get(*ix), (i, W(k))), pre.get(*ix))
    r = pre.with_(get=get, w=lambda *ix: z3.Or(oldw(*ix), D(key(ix))))
    for q in ('enum', 'lst', 'filt'): r.extra.pop(q, None)
    return r


# ------------------------------------------------------------------------------------------- sklearn
def pairwise(name):
    def f(eng, st, args, kw):
        a = A(eng, st, args[0])
        metric = eng.val(st, kw['metric']) if 'metric' in kw else S('euclidean' if name == 'dist' else 'cosine')
        if len(args) > 1 or 'Y' in kw:
            # between the rows of two matrices
            b = A(eng, st, args[1] if len(args) > 1 else kw['Y'])
            out = []
            for s, ok in eng.split(st, z3.And(a.shape[1] == b.shape[1], a.shape[0] >= 1, b.shape[0] >= 1)):
                if not ok: out.append((s, Exc('ValueError', 'shapes'))); continue
                g = eng.fresh_fn(s, 'pw2_' + name, z3.IntSort(), z3.IntSort(), z3.RealSort())
                s.ghost = dict(s.ghost)
                s.ghost['pairwise2'] = s.ghost.get('pairwise2', ()) + ((name, metric, a, b, g),)
                out.append((s, eng.alloc(s, nd([a.shape[0], b.shape[0]], g, REAL))))
            return out
        g = eng.fresh_fn(st, 'pw_' + name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        i, j = fi('i'), fi('j')
        eng.assume(st, z3.ForAll([i, j], g(i, j) == g(j, i), patterns=[g(i, j)]))
        s = st
        s.ghost = dict(s.ghost)
        s.ghost['pairwise'] = s.ghost.get('pairwise', ()) + ((name, metric, a, g),)
        return eng.alloc(st, nd([a.shape[0], a.shape[0]], g, REAL))
    return f


def normalize(eng, st, args, kw):
    a = A(eng, st, args[0])
    norm = eng.val(st, lib.kwarg(args, kw, 1, 'norm', S('l2')))
    x = lambda i, j: cvt(a.get(i, j), a.dt, REAL)
    out = []
    rest = st
    for nm in ('l1', 'l2'):
        nxt = None
        for s, b in eng.split(rest, norm.t == strlit(nm)):
            if not b: nxt = s; continue
            if nm == 'l1': f = row_sum(eng, s, lambda i, j: z3.If(x(i, j) < 0, -x(i, j), x(i, j)), a.shape[1])
            else:
                q = row_sum(eng, s, lambda i, j: eng.uf('square', z3.RealSort(), z3.RealSort())(x(i, j)), a.shape[1])
                f = lambda i: eng.uf('sqrt', z3.RealSort(), z3.RealSort())(q(i))
            g = lambda i, j, f=f: z3.If(f(i) == 0, x(i, j), x(i, j) / f(i))
            out.append((s, eng.alloc(s, ArrV(a.kind, a.shape, g, REAL, a.stored, a.fmt))))
        if nxt is None: return out
        rest = nxt
    out.append((rest, Exc('ValueError', 'norm')))
    return out


# ------------------------------------------------------------------------------------------- pandas (row lists)
def frame(cols, rows):
    """a data frame: column names and the list of its rows (tuples), in order; immutable in the code under contract"""
    return ConcV('DataFrame', cols=list(cols), rows=rows)


def df_new(eng, st, args, kw):
    data = lib.kwarg(args, kw, 0, 'data', NONEV)
    cols = kw.get('columns')
    if cols is None: raise Unsupported('data frame without column names')
    names = [conc(c) for c in eng.iterview(st, cols).items]
    rows = lib.as_list(eng, st, data)
    return frame(names, rows)


def df_getitem(eng, st, o, a, k):
    v = eng.val(st, o)
    kv = eng.val(st, a[0])
    if isinstance(kv, P) and kv.ty == STR and is_conc(kv):
        c = conc(kv)
        if c not in v.cols: return Exc('KeyError', c)
        j = v.cols.index(c)
        rows = v.rows
        if rows.items is not None: lst = clist([r.items[j] for r in rows.items])
        else: lst = ListV(rows.n, lambda i: rows.get(i).items[j], rows.el.els[j])
        return ConcV('Series', lst=lst)
    if isinstance(kv, ConcV) and kv.kind == 'slice':
        rs = eng.getslice(st, eng.alloc(st, v.rows), v.rows, kv)
        return [(s, r if isinstance(r, Exc) else frame(v.cols, eng.snap(s, r))) for s, r in rs]
    raise Unsupported('data frame subscript')


def attr_enum(which):
    def f(eng, st, o):
        a = A(eng, st, o)
        if a.fmt == 'csc' and which in ('indptr', 'indices'):
            # column pointers and row indices: nothing is assumed about the pointers
            e = sp_enum(eng, st, a)
            if which == 'indices': return eng.alloc(st, nd([e.n], e.row, INT, enum=e, role='rows of csc'))
            return eng.alloc(st, nd([a.shape[1] + 1], eng.fresh_fn(st, 'colptr', z3.IntSort(), z3.IntSort()), INT, enum=e, role='colptr'))
        if which == 'indptr':
            e = indptr(eng, st, a)
            return eng.alloc(st, nd([a.shape[0] + 1], e.ip, INT, enum=e, role='indptr'))
        e = sp_enum(eng, st, a)
        if which == 'data': return eng.alloc(st, nd([e.n], lambda k: a.get(e.row(k), e.col(k)), a.dt, enum=e, role='data'))
        return eng.alloc(st, nd([e.n], e.row if which == 'row' else e.col, INT, enum=e, role='col' if which == 'indices' else which))
    return f


def install(eng):
    E, M, AT = eng.ext, eng.methods, eng.attrs
    E['pandas.DataFrame'] = df_new
    M[('DataFrame', '__getitem__')] = df_getitem
    M[('Series', 'tolist')] = lambda e, s, r, a, k: e.alloc(s, e.val(s, r).lst)
    M[('Series', '__iter__')] = lambda e, s, r, a, k: e.alloc(s, e.val(s, r).lst)
    M[('arr', 'binop')] = binop
    M[('arr', 'compare')] = compare
    M[('arr', 'map')] = map_arr
    M[('arr', 'invert')] = invert
    M[('arr', 'negate')] = negate
    M[('arr', 'builtin_sum')] = builtin_sum
    M[('arr', 'loop_effect')] = loop_effect
    M[('arr', 'loop_combine')] = loop_combine
    for k in ('nd', 'sp'):
        M[(k, '__getitem__')] = a_getitem
        M[(k, 'Invert')] = lambda e, s, r, a, kw: invert(e, s, r)
        M[(k, 'USub')] = lambda e, s, r, a, kw: negate(e, s, r)
        M[(k, '__setitem__')] = a_setitem
        M[(k, '__iter__')] = a_iter
        M[(k, 'sum')] = m_sum
        M[(k, 'mean')] = m_mean
        M[(k, 'dot')] = dot
        M[(k, 'transpose')] = transpose
        M[(k, 'copy')] = m_copy
        M[(k, 'astype')] = astype
        AT[(k, 'T')] = lambda e, s, o: transpose(e, s, o)
        AT[(k, 'shape')] = lambda e, s, o: TupV([P(INT, x) for x in A(e, s, o).shape])
        AT[(k, 'dtype')] = lambda e, s, o: ConcV('dtype', dt=A(e, s, o).dt)
        AT[(k, 'ndim')] = lambda e, s, o: I(len(A(e, s, o).shape))
    AT[('nd', 'size')] = lambda e, s, o: P(INT, A(e, s, o).shape[0]) if len(A(e, s, o).shape) == 1 else P(INT, A(e, s, o).shape[0] * A(e, s, o).shape[1])
    AT[('sp', 'nnz')] = nnz
    for w in ('data', 'row', 'col', 'indptr'): AT[('sp', w)] = attr_enum(w)
    AT[('sp', 'indices')] = attr_enum('indices')
    M[('sp', 'getnnz')] = m_getnnz
    M[('sp', 'multiply')] = m_multiply
    M[('sp', 'toarray')] = toarray
    M[('sp', 'todense')] = todense
    for f in ('csr', 'csc', 'coo', 'lil'):
        M[('sp', 'to' + f)] = to_fmt(f)
        E['scipy.sparse.%s_matrix' % f] = sparse_ctor(f)
    E['scipy.sparse.vstack'] = sp_stack(0)
    E['scipy.sparse.hstack'] = sp_stack(1)
    M[('nd', 'ravel')] = M[('nd', 'flatten')] = ravel
    M[('nd', 'tolist')] = tolist
    M[('nd', 'argsort')] = argsort
    M[('nd', 'argmax')], M[('nd', 'argmin')] = argmax(False), argmax(True)
    E['numpy.argmax'] = lambda e, s, a, k: argmax(False)(e, s, a[0], a[1:], k)
    E['numpy.argmin'] = lambda e, s, a, k: argmax(True)(e, s, a[0], a[1:], k)
    M[('nd', 'min')], M[('nd', 'max')] = minmax('min'), minmax('max')
    E['numpy.array'] = np_array
    E['numpy.asarray'] = np_asarray
    E['numpy.zeros'] = np_const(0)
    E['numpy.ones'] = np_const(1)
    E['numpy.empty'] = np_const(0)
    E['numpy.arange'] = np_arange
    E['numpy.concatenate'] = np_concat
    E['numpy.vstack'] = lambda e, s, a, k: np_concat(e, s, [a[0], I(0)], {})
    E['numpy.hstack'] = lambda e, s, a, k: np_concat(e, s, [a[0], I(1)], {})
    E['numpy.allclose'] = allclose
    E['numpy.delete'] = np_delete
    E['numpy.unique'] = np_unique
    E['numpy.count_nonzero'] = count_nonzero
    E['numpy.sum'] = lambda e, s, a, k: m_sum(e, s, a[0], a[1:], k)
    E['numpy.mean'] = lambda e, s, a, k: m_mean(e, s, a[0], a[1:], k)
    E['numpy.argsort'] = lambda e, s, a, k: argsort(e, s, a[0], a[1:], k)
    E['numpy.argpartition'] = lambda e, s, a, k: argpartition(e, s, a[0], a[1:], k)
    E['numpy.meshgrid'] = meshgrid
    E['numpy.fill_diagonal'] = fill_diag
    E['numpy.random.choice'] = random_choice
    E['numpy.random.seed'] = lambda e, s, a, k: NONEV
    E['numpy.transpose'] = lambda e, s, a, k: transpose(e, s, a[0])
    E['numpy.ravel'] = lambda e, s, a, k: ravel(e, s, a[0])
    E['numpy.abs'] = E['numpy.absolute'] = lambda e, s, a, k: map_arr(e, s, a[0], lambda t: z3.If(t < 0, -t, t))
    E['sklearn.metrics.pairwise_distances'] = pairwise('dist')
    E['sklearn.metrics.pairwise.cosine_similarity'] = pairwise('cos')
    E['sklearn.preprocessing.normalize'] = normalize
