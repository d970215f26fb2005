"""Symbolic values of the pydv verifier.

Scalars are z3 terms.  Containers are *structured values*: Python records whose components are z3 terms or
closures from index/key values to values, so reading a cell of an updated container is plain unfolding.
Symbolic inputs are built from families of uninterpreted functions, so every query stays first-order.
"""
import itertools
import z3

StrSort = z3.DeclareSort('Str')
_counter = itertools.count()


def uid():
    return next(_counter)


# ----------------------------------------------------------------------------------------------- types
class Ty(object):
    def __eq__(self, o): return repr(self) == repr(o)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(repr(self))


class TPrim(Ty):
    def __init__(self, name, sort): self.name, self.sort = name, sort
    def __repr__(self): return self.name


INT = TPrim('int', z3.IntSort())
REAL = TPrim('real', z3.RealSort())
BOOL = TPrim('bool', z3.BoolSort())
STR = TPrim('str', StrSort)


class TU(TPrim):
    """an uninterpreted (opaque) type; cls names the attribute table used for accessors"""
    _sorts = {}
    def __init__(self, name):
        if name not in TU._sorts: TU._sorts[name] = z3.DeclareSort('U_' + name)
        TPrim.__init__(self, name, TU._sorts[name])


class TFset(TPrim):
    """an immutable set of one-component elements, given by a membership predicate"""
    _sorts = {}
    def __init__(self, el):
        self.el = el
        n = 'FSet_%r' % (el,)
        if n not in TFset._sorts:
            so = z3.DeclareSort(n)
            TFset._sorts[n] = (so, z3.Function('in_' + n, so, el.sort, z3.BoolSort()))
        self.mem = TFset._sorts[n][1]
        TPrim.__init__(self, 'frozenset', TFset._sorts[n][0])
    def __repr__(self): return 'frozenset[%r]' % self.el


class TNone(Ty):
    def __repr__(self): return 'NoneType'
NONE = TNone()


class TList(Ty):
    def __init__(self, el): self.el = el
    def __repr__(self): return 'list[%r]' % self.el


class TDict(Ty):
    """default: the factory of a defaultdict (not part of the type's identity)"""
    def __init__(self, k, v, default=None): self.k, self.v, self.default = k, v, default
    def __repr__(self): return 'dict[%r,%r]' % (self.k, self.v)


class TSet(Ty):
    def __init__(self, k): self.k = k
    def __repr__(self): return 'set[%r]' % self.k


class TTup(Ty):
    def __init__(self, *els): self.els = els
    def __repr__(self): return 'tuple%r' % (self.els,)


class TOpt(Ty):
    def __init__(self, el): self.el = el
    def __repr__(self): return 'opt[%r]' % self.el


class TObj(Ty):
    """instance of a repository class (qualified 'module:Class') with typed fields"""
    def __init__(self, cls, **fields): self.cls, self.fields = cls, fields
    def __repr__(self): return 'obj[%s%r]' % (self.cls, sorted(self.fields.items()))


class TArr(Ty):
    """dependency array/sparse matrix handled by lib: kind in nd1, nd2, sp"""
    def __init__(self, kind, fmt=None, dt=REAL): self.kind, self.fmt, self.dt = kind, fmt, dt
    def __repr__(self): return 'arr[%s,%s,%r]' % (self.kind, self.fmt, self.dt)


class TConst(Ty):
    """a fixed python-level value (type tag, function, settings)"""
    def __init__(self, v): self.v = v
    def __repr__(self): return 'const[%r]' % (self.v,)


class TCDict(Ty):
    def __init__(self, d): self.d = d
    def __repr__(self): return 'cdict%r' % (self.d,)


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------------------------------------- values
class SV(object):
    pass


class P(SV):
    __slots__ = ('ty', 't')
    def __init__(self, ty, t): self.ty, self.t = ty, t
    def __repr__(self): return 'P(%r,%s)' % (self.ty, str(self.t)[:80])


class NoneV(SV):
    def __repr__(self): return 'NoneV'


NONEV = NoneV()


class OptV(SV):
    def __init__(self, isnone, val): self.isnone, self.val = isnone, val
    def __repr__(self): return 'Opt(%s,%r)' % (self.isnone, self.val)


class TupV(SV):
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return 'Tup%r' % (self.items,)


class ListV(SV):
    """n: Int term; get: closure Int term -> SV; items: concrete python list or None"""
    def __init__(self, n, get, el=None, items=None, gen=False):
        self.n, self._get, self.el, self.items, self.gen = n, get, el, items, gen
    def get(self, i):
        if self.items is not None:
            iv = int_value(i)
            if iv is not None and -len(self.items) <= iv < len(self.items): return self.items[iv]
            if not self.items: raise Unsupported('index into empty list')
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = ite(i == k, self.items[k], r)
            return r
        return self._get(i)
    def __repr__(self): return 'List(n=%s%s)' % (self.n, '' if self.items is None else ', %r' % self.items)


def clist(items):
    items = list(items)
    el = None
    try:
        if items:
            t0 = typeof(items[0])
            if all(typeof(x) == t0 for x in items): el = t0
    except Unsupported:
        pass
    return ListV(z3.IntVal(len(items)), None, el, items)


class DictV(SV):
    """dom: key SV -> Bool; val: key SV -> SV; enum: None or (n, keyat(Int)->SV, idx(SV)->Int)"""
    def __init__(self, k, v, dom, val, enum=None, default=None):
        self.k, self.v, self.dom, self.val, self.enum, self.default = k, v, dom, val, enum, default
    def __repr__(self): return 'Dict(%r,%r)' % (self.k, self.v)


class CDictV(SV):
    """dict with concrete (python str/int/type) keys only: ordered python dict key -> SV"""
    def __init__(self, d, default=None): self.d, self.default = dict(d), default
    def __repr__(self): return 'CDict%r' % (self.d,)


class SetV(SV):
    def __init__(self, k, dom, enum=None):
        self.k, self.dom, self.enum = k, dom, enum
    def __repr__(self): return 'Set(%r)' % self.k


class ObjV(SV):
    def __init__(self, cls, fields): self.cls, self.fields = cls, dict(fields)
    def __repr__(self): return 'Obj(%s,%r)' % (self.cls, self.fields)


class ArrV(SV):
    """dependency array value.  shape: tuple of Int terms; get(*idx) -> term; for sparse also stored(i,j)->Bool.
    kind: 'nd' or 'sp'; fmt for sp; dt element type; extra: dict"""
    def __init__(self, kind, shape, get, dt=REAL, stored=None, fmt=None, **extra):
        self.kind, self.shape, self.get, self.dt, self.stored, self.fmt, self.extra = \
            kind, tuple(shape), get, dt, stored, fmt, extra
    def with_(self, **kw):
        d = dict(kind=self.kind, shape=self.shape, get=self.get, dt=self.dt, stored=self.stored, fmt=self.fmt)
        d.update(self.extra); d.update(kw)
        return ArrV(**d)
    def __repr__(self): return 'Arr(%s,%s,%s)' % (self.kind, self.fmt, self.shape)


class Ref(SV):
    __slots__ = ('cell',)
    def __init__(self, cell): self.cell = cell
    def __repr__(self): return 'Ref(%s)' % self.cell


class Sub(SV):
    """reference to a mutable value nested by value inside another one"""
    __slots__ = ('base', 'kind', 'key', 'epoch')
    def __init__(self, base, kind, key, epoch=0): self.base, self.kind, self.key, self.epoch = base, kind, key, epoch
    def __repr__(self): return 'Sub(%r,%s,%r)' % (self.base, self.kind, self.key)


class ConcV(SV):
    """concrete python-level thing: type tags, functions, modules, bound methods, slices..."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
    def __repr__(self): return 'Conc(%s)' % ', '.join('%s=%s' % (k, str(v)[:60]) for k, v in self.__dict__.items())


class Poison(SV):
    def __init__(self, why): self.why = why


class Exc(SV):
    def __init__(self, name, msg='', value=None): self.name, self.msg, self.value = name, msg, value
    def __repr__(self): return 'Exc(%s: %s)' % (self.name, self.msg)


# ----------------------------------------------------------------------------------------------- literals
STRLIT = {}      # python str -> const
LITOF = {}       # const name -> python str


def strlit(s):
    if s not in STRLIT:
        c = z3.Const('s!%d!%s' % (len(STRLIT), ''.join(ch if ch.isalnum() else '_' for ch in s)[:20]), StrSort)
        STRLIT[s] = c
        LITOF[c.decl().name()] = s
    return STRLIT[s]


def str_value(t):
    if z3.is_const(t): return LITOF.get(t.decl().name())
    return None


def int_value(t):
    if isinstance(t, int): return t
    if z3.is_int_value(t): return t.as_long()
    s = z3.simplify(t)
    if z3.is_int_value(s): return s.as_long()
    return None


def real_value(t):
    if z3.is_rational_value(t): return t.as_fraction()
    if z3.is_int_value(t): return t.as_long()
    s = z3.simplify(t)
    if z3.is_rational_value(s): return s.as_fraction()
    return None


def I(n): return P(INT, z3.IntVal(n) if isinstance(n, int) else n)
def R(x): return P(REAL, z3.RealVal(x) if not z3.is_expr(x) else x)
def B(b): return P(BOOL, z3.BoolVal(b) if isinstance(b, bool) else b)
def S(s): return P(STR, strlit(s) if isinstance(s, str) else s)


BUILTIN_TYPES = ('dict', 'list', 'set', 'tuple', 'int', 'float', 'str', 'bool', 'frozenset')
EXT_TYPES = ('collections.defaultdict', 'collections.OrderedDict', 'pandas.DataFrame', 'numpy.ndarray', 'numpy.matrix',
             'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.coo_matrix', 'scipy.sparse.lil_matrix',
             'scipy.sparse.spmatrix')


def conc(v):
    """python value of a concrete SV or raise KeyError"""
    if isinstance(v, P):
        if v.ty == STR:
            s = str_value(v.t)
            if s is not None: return s
        elif v.ty == INT:
            s = int_value(v.t)
            if s is not None: return s
        elif v.ty == BOOL:
            b = z3.simplify(v.t)
            if z3.is_true(b): return True
            if z3.is_false(b): return False
        elif v.ty == REAL:
            r = real_value(v.t)
            if r is not None: return float(r)
        raise KeyError
    if isinstance(v, NoneV): return None
    if isinstance(v, TupV): return tuple(conc(x) for x in v.items)
    if isinstance(v, ConcV) and v.kind == 'type': return ('type', v.name)
    if isinstance(v, ConcV) and v.kind == 'class': return ('class', v.qual)
    if isinstance(v, ConcV) and v.kind == 'builtin' and v.name in BUILTIN_TYPES: return ('type', v.name)
    if isinstance(v, ConcV) and v.kind == 'ext' and v.path in EXT_TYPES: return ('type', v.path.split('.')[-1])
    raise KeyError


def is_conc(v):
    try:
        conc(v); return True
    except KeyError:
        return False


# ----------------------------------------------------------------------------------------------- typing
def typeof(v):
    if isinstance(v, P): return v.ty
    if isinstance(v, NoneV): return NONE
    if isinstance(v, TupV): return TTup(*[typeof(x) for x in v.items])
    if isinstance(v, ListV):
        if v.el is None:
            if v.items is not None and not v.items: return TList(None)
            raise Unsupported('element type of a mixed list')
        return TList(v.el)
    if isinstance(v, DictV): return TDict(v.k, v.v, v.default)
    if isinstance(v, SetV): return TSet(v.k)
    if isinstance(v, OptV): return TOpt(typeof(v.val))
    if isinstance(v, ObjV): return TObj(v.cls, **{k: typeof(x) for k, x in v.fields.items()})
    if isinstance(v, ArrV): return TArr(v.kind + str(len(v.shape)), v.fmt, v.dt)
    if isinstance(v, ConcV): return TConst(v)
    if isinstance(v, CDictV): return TCDict({k: typeof(x) for k, x in v.d.items()})
    raise Unsupported('type of %r' % (v,))


def flat(v):
    """list of scalar terms identifying a hashable value"""
    if isinstance(v, P): return [v.t]
    if isinstance(v, TupV): return [t for x in v.items for t in flat(x)]
    if isinstance(v, OptV): return [v.isnone] + flat(v.val)
    if isinstance(v, NoneV): return []
    raise Unsupported('not a hashable symbolic key: %r' % (v,))


def flat_sorts(ty):
    if isinstance(ty, TPrim): return [ty.sort]
    if isinstance(ty, TTup): return [s for e in ty.els for s in flat_sorts(e)]
    if isinstance(ty, TOpt): return [z3.BoolSort()] + flat_sorts(ty.el)
    if isinstance(ty, TNone): return []
    raise Unsupported('key type %r' % (ty,))


def unflat(ty, terms):
    terms = list(terms)
    def go(t):
        if isinstance(t, TPrim): return P(t, terms.pop(0))
        if isinstance(t, TTup): return TupV([go(e) for e in t.els])
        if isinstance(t, TOpt):
            n = terms.pop(0)
            return OptV(n, go(t.el))
        if isinstance(t, TNone): return NONEV
        raise Unsupported('unflat %r' % (t,))
    return go(ty)


def keyconst(ty, name='k'):
    """fresh symbolic key of a hashable type; returns (SV, [consts])"""
    cs = [z3.FreshConst(s, name) for s in flat_sorts(ty)]
    return unflat(ty, cs), cs


# ----------------------------------------------------------------------------------------------- families
AXIOMS = []      # global axioms about symbolic inputs (closed formulas)


ENUMKEY = {}     # name of a key enumeration function -> (arguments -> (size, dom(c), idx(c))) for one-component keys


class Family(object):
    """uninterpreted value of type ty depending on arguments of the given sorts"""
    def __init__(self, ty, name, sorts=(), enum=True):
        self.ty, self.name, self.sorts = ty, name, list(sorts)
        self.funs = []
        self.enum = enum
        self._build()

    def _fn(self, suffix, extra, res):
        sig = self.sorts + list(extra)
        nm = '%s%s' % (self.name, suffix)
        if sig:
            f = z3.Function(nm, *(sig + [res]))
        else:
            f = z3.Const(nm, res)
        self.funs.append(f)
        return f

    def _build(self):
        ty = self.ty
        if isinstance(ty, TPrim):
            self.f = self._fn('', [], ty.sort)
        elif isinstance(ty, TTup):
            self.subs = [Family(e, '%s.%d' % (self.name, k), self.sorts, self.enum) for k, e in enumerate(ty.els)]
        elif isinstance(ty, TOpt):
            self.f = self._fn('.none', [], z3.BoolSort())
            self.subs = [Family(ty.el, self.name + '.v', self.sorts, self.enum)]
        elif isinstance(ty, TList):
            self.f = self._fn('.len', [], z3.IntSort())
            self.subs = [Family(ty.el, self.name + '.el', self.sorts + [z3.IntSort()], self.enum)]
            vs = [z3.FreshConst(s, 'a') for s in self.sorts]
            AXIOMS.append(_forall(vs, _ap(self.f, vs) >= 0, [_ap(self.f, vs)]))
        elif isinstance(ty, (TDict, TSet)):
            ks = flat_sorts(ty.k)
            self.ks = ks
            self.fdom = self._fn('.dom', ks, z3.BoolSort())
            if isinstance(ty, TDict):
                self.subs = [Family(ty.v, self.name + '.val', self.sorts + ks, self.enum)]
            if self.enum:
                self.fn = self._fn('.size', [], z3.IntSort())
                self.fidx = self._fn('.idx', ks, z3.IntSort())
                self.fkey = Family(ty.k, self.name + '.key', self.sorts + [z3.IntSort()])
                vs = [z3.FreshConst(s, 'a') for s in self.sorts]
                i = z3.FreshConst(z3.IntSort(), 'i')
                kv = [z3.FreshConst(s, 'k') for s in ks]
                n = _ap(self.fn, vs)
                key = flat(self.fkey.at(vs + [i]))
                AXIOMS.append(_forall(vs, n >= 0, [n]))
                AXIOMS.append(_forall(vs + [i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                    _ap(self.fdom, vs + key), _ap(self.fidx, vs + key) == i)), [z3.MultiPattern(*key)]))
                if len(ks) == 1:
                    ENUMKEY[self.fkey.f.decl().name() if z3.is_expr(self.fkey.f) else self.fkey.f.name()] = \
                        lambda a: (_ap(self.fn, a), lambda c: _ap(self.fdom, a + [c]), lambda c: _ap(self.fidx, a + [c]))
                ix = _ap(self.fidx, vs + kv)
                kk = flat(self.fkey.at(vs + [ix]))
                AXIOMS.append(_forall(vs + kv, _ap(self.fdom, vs + kv) == z3.And(
                    0 <= ix, ix < n, *[a == b for a, b in zip(kk, kv)]), [_ap(self.fdom, vs + kv)]))
        elif isinstance(ty, TObj):
            self.subs = {k: Family(t, '%s.%s' % (self.name, k), self.sorts, self.enum)
                         for k, t in ty.fields.items()}
        elif isinstance(ty, TArr):
            nd = 2 if ty.kind in ('nd2', 'sp2') else 1
            self.dims = [self._fn('.d%d' % k, [], z3.IntSort()) for k in range(nd)]
            self.f = self._fn('.at', [z3.IntSort()] * nd, ty.dt.sort)
            if ty.kind == 'sp2':
                self.fst = self._fn('.stored', [z3.IntSort()] * nd, z3.BoolSort())
            vs = [z3.FreshConst(s, 'a') for s in self.sorts]
            for d in self.dims:
                AXIOMS.append(_forall(vs, _ap(d, vs) >= 0, [_ap(d, vs)]))
            if ty.kind == 'sp2':
                ij = [z3.FreshConst(z3.IntSort(), 'i') for _ in range(nd)]
                zero = z3.BoolVal(False) if ty.dt == BOOL else (z3.RealVal(0) if ty.dt == REAL else z3.IntVal(0))
                AXIOMS.append(_forall(vs + ij, z3.Implies(z3.Not(_ap(self.fst, vs + ij)),
                                                          _ap(self.f, vs + ij) == zero), [_ap(self.f, vs + ij)]))
        elif isinstance(ty, (TNone, TConst)):
            pass
        elif isinstance(ty, TCDict):
            self.subs = {k: Family(t, '%s.%s' % (self.name, k), self.sorts, self.enum) for k, t in ty.d.items()}
        else:
            raise Unsupported('family of %r' % (ty,))

    def all_funs(self):
        r = list(self.funs)
        subs = getattr(self, 'subs', [])
        for s in (subs.values() if isinstance(subs, dict) else subs): r += s.all_funs()
        if getattr(self, 'fkey', None) is not None: r += self.fkey.all_funs()
        return r

    def at(self, args=()):
        ty, args = self.ty, list(args)
        if isinstance(ty, TPrim): return P(ty, _ap(self.f, args))
        if isinstance(ty, TTup): return TupV([s.at(args) for s in self.subs])
        if isinstance(ty, TOpt): return OptV(_ap(self.f, args), self.subs[0].at(args))
        if isinstance(ty, TNone): return NONEV
        if isinstance(ty, TConst): return ty.v
        if isinstance(ty, TCDict): return CDictV({k: s.at(args) for k, s in self.subs.items()})
        if isinstance(ty, TList):
            return ListV(_ap(self.f, args), lambda i: self.subs[0].at(args + [i]), ty.el)
        if isinstance(ty, (TDict, TSet)):
            dom = lambda k: _ap(self.fdom, args + flat(coerce(k, ty.k)))
            enum = None
            if self.enum:
                enum = (_ap(self.fn, args), lambda i: self.fkey.at(args + [i]),
                        lambda k: _ap(self.fidx, args + flat(coerce(k, ty.k))))
            if isinstance(ty, TSet): return SetV(ty.k, dom, enum)
            return DictV(ty.k, ty.v, dom, lambda k: self.subs[0].at(args + flat(coerce(k, ty.k))), enum, ty.default)
        if isinstance(ty, TObj):
            return ObjV(ty.cls, {k: s.at(args) for k, s in self.subs.items()})
        if isinstance(ty, TArr):
            shape = [_ap(d, args) for d in self.dims]
            get = lambda *ix: _ap(self.f, args + list(ix))
            if ty.kind == 'sp2':
                return ArrV('sp', shape, get, ty.dt, lambda *ix: _ap(self.fst, args + list(ix)), ty.fmt)
            return ArrV('nd', shape, get, ty.dt)
        raise Unsupported('family value of %r' % (ty,))


def _ap(f, args):
    args = [z3.IntVal(a) if isinstance(a, int) and not isinstance(a, bool) else a for a in args]
    return f(*args) if args else f


def _forall(vs, body, pats=()):
    if not vs: return body
    pats = [p for p in pats]
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


# ----------------------------------------------------------------------------------------------- operations
def to_real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else (z3.If(t, z3.RealVal(1), z3.RealVal(0))
                                                          if t.sort() == z3.BoolSort() else t)


def to_int(t):
    return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if t.sort() == z3.BoolSort() else t


def coerce(v, ty):
    """numeric widening so that a value can be used at a type"""
    if ty is None: return v
    if isinstance(v, P) and isinstance(ty, TPrim) and v.ty != ty:
        if ty == REAL and v.ty in (INT, BOOL): return P(REAL, to_real(v.t))
        if ty == INT and v.ty == BOOL: return P(INT, to_int(v.t))
        raise Unsupported('type mismatch %r as %r' % (v, ty))
    if isinstance(v, TupV) and isinstance(ty, TTup):
        if len(v.items) != len(ty.els): raise Unsupported('tuple width')
        return TupV([coerce(x, t) for x, t in zip(v.items, ty.els)])
    if isinstance(ty, TOpt):
        if isinstance(v, OptV): return v
        if isinstance(v, NoneV): return OptV(z3.BoolVal(True), dummy(ty.el))
        return OptV(z3.BoolVal(False), coerce(v, ty.el))
    if isinstance(ty, TObj) and isinstance(v, ObjV):
        return ObjV(v.cls, {f: coerce(x, ty.fields.get(f)) for f, x in v.fields.items()})
    if isinstance(ty, TDict) and isinstance(v, CDictV): return cdict_to_dict(v, ty)
    if isinstance(ty, TCDict) and isinstance(v, CDictV):
        return CDictV({f: coerce(x, ty.d.get(f)) for f, x in v.d.items()}, v.default)
    if isinstance(ty, TDict) and isinstance(v, DictV):
        df = v.default or ty.default
        if v.k == ty.k and v.v == ty.v and not (df and not v.default) and not getattr(ty.v, 'default', None): return v
        if v.k is None:
            r = empty_dict(ty.k, ty.v); r.default = df
            return r
        return DictV(ty.k, ty.v, v.dom, lambda k: coerce(v.val(k), ty.v), v.enum, df)
    if isinstance(ty, TSet) and isinstance(v, SetV) and v.k is None:
        return SetV(ty.k, lambda k: z3.BoolVal(False))
    if isinstance(ty, TList) and isinstance(v, ListV) and v.el != ty.el:
        if v.items is not None: 
            r = clist([coerce(x, ty.el) for x in v.items]); r.el = ty.el
            return r
        return ListV(v.n, lambda i: coerce(v.get(i), ty.el), ty.el)
    return v


def empty_dict(k, v):
    return DictV(k, v, lambda x: z3.BoolVal(False), lambda x: dummy(v),
                 (z3.IntVal(0), lambda i: dummy(k), lambda x: z3.IntVal(0)))


_dummies = {}


def dummy(ty):
    """an arbitrary value of a type (never observed)"""
    key = repr(ty)
    if key not in _dummies:
        if ty is None: return NONEV
        _dummies[key] = Family(ty, 'dummy!%d' % len(_dummies), [])
    return _dummies[key].at([])


def join_ty(a, b):
    if a == b and not isinstance(a, TDict): return a
    if a == b and (a.default or not b.default) and not isinstance(a.v, TDict): return a
    if a is None: return b
    if b is None: return a
    if a in (INT, BOOL, REAL) and b in (INT, BOOL, REAL):
        return REAL if REAL in (a, b) else INT
    if isinstance(a, TNone): return b if isinstance(b, TOpt) else TOpt(b)
    if isinstance(b, TNone): return a if isinstance(a, TOpt) else TOpt(a)
    if isinstance(a, TOpt): return TOpt(join_ty(a.el, b.el if isinstance(b, TOpt) else b))
    if isinstance(b, TOpt): return TOpt(join_ty(a, b.el))
    if isinstance(a, TList) and isinstance(b, TList): return TList(join_ty(a.el, b.el))
    if isinstance(a, TDict) and isinstance(b, TDict): return TDict(join_ty(a.k, b.k), join_ty(a.v, b.v), a.default or b.default)
    if isinstance(a, TSet) and isinstance(b, TSet): return TSet(join_ty(a.k, b.k))
    if isinstance(a, TTup) and isinstance(b, TTup) and len(a.els) == len(b.els):
        return TTup(*[join_ty(x, y) for x, y in zip(a.els, b.els)])
    if isinstance(a, TObj) and isinstance(b, TObj) and a.cls == b.cls and set(a.fields) == set(b.fields):
        return TObj(a.cls, **{f: join_ty(a.fields[f], b.fields[f]) for f in a.fields})
    if isinstance(a, TCDict) and isinstance(b, TCDict) and set(a.d) == set(b.d):
        return TCDict({f: join_ty(a.d[f], b.d[f]) for f in a.d})
    raise Unsupported('no common type of %r and %r' % (a, b))


def ite(c, a, b):
    c = z3.simplify(c) if not z3.is_const(c) else c
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, P) and isinstance(b, P):
        if a.ty == b.ty:
            return P(a.ty, a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t))
        ty = join_ty(a.ty, b.ty)
        return P(ty, z3.If(c, coerce(a, ty).t, coerce(b, ty).t))
    if isinstance(a, NoneV) and isinstance(b, NoneV): return a
    if isinstance(a, (OptV, NoneV)) or isinstance(b, (OptV, NoneV)):
        if isinstance(a, NoneV):
            if not isinstance(b, OptV): b = OptV(z3.BoolVal(False), b)
            return OptV(z3.Or(c, b.isnone), b.val)
        if isinstance(b, NoneV):
            if not isinstance(a, OptV): a = OptV(z3.BoolVal(False), a)
            return OptV(z3.Or(z3.Not(c), a.isnone), a.val)
        if not isinstance(a, OptV): a = OptV(z3.BoolVal(False), a)
        if not isinstance(b, OptV): b = OptV(z3.BoolVal(False), b)
        return OptV(z3.If(c, a.isnone, b.isnone), ite(c, a.val, b.val))
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
        return TupV([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, ListV) and isinstance(b, ListV):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return clist([ite(c, x, y) for x, y in zip(a.items, b.items)])
        el = join_ty(a.el, b.el)
        def g(i, a=a, b=b):
            if a.items is not None and not a.items: return coerce(b.get(i), el)
            if b.items is not None and not b.items: return coerce(a.get(i), el)
            return ite(c, coerce(a.get(i), el), coerce(b.get(i), el))
        return ListV(z3.If(c, a.n, b.n), g, el)
    if isinstance(a, DictV) and isinstance(b, DictV):
        k, v = join_ty(a.k, b.k), join_ty(a.v, b.v)
        a, b = coerce(a, TDict(k, v, a.default or b.default)), coerce(b, TDict(k, v, a.default or b.default))
        enum = None
        if a.enum and b.enum:
            ea, eb = a.enum, b.enum
            enum = (z3.If(c, ea[0], eb[0]), lambda i: ite(c, ea[1](i), eb[1](i)),
                    lambda x: z3.If(c, ea[2](x), eb[2](x)))
        return DictV(k, v, lambda x: z3.If(c, a.dom(x), b.dom(x)), lambda x: ite(c, a.val(x), b.val(x)),
                     enum, a.default or b.default)
    if isinstance(a, SetV) and isinstance(b, SetV):
        k = join_ty(a.k, b.k)
        a, b = coerce(a, TSet(k)), coerce(b, TSet(k))
        enum = None
        if a.enum and b.enum:
            ea, eb = a.enum, b.enum
            enum = (z3.If(c, ea[0], eb[0]), lambda i: ite(c, ea[1](i), eb[1](i)),
                    lambda x: z3.If(c, ea[2](x), eb[2](x)))
        return SetV(k, lambda x: z3.If(c, a.dom(x), b.dom(x)), enum)
    if isinstance(a, ObjV) and isinstance(b, ObjV) and a.cls == b.cls:
        return ObjV(a.cls, {f: ite(c, a.fields[f], b.fields[f]) for f in a.fields if f in b.fields})
    if isinstance(a, CDictV) and isinstance(b, CDictV) and list(a.d) == list(b.d):
        return CDictV({k: ite(c, a.d[k], b.d[k]) for k in a.d})
    if isinstance(a, ArrV) and isinstance(b, ArrV) and a.kind == b.kind and len(a.shape) == len(b.shape):
        dt = join_ty(a.dt, b.dt)
        cv = (lambda x: to_real(x)) if dt == REAL else (lambda x: to_int(x) if dt == INT else x)
        st = None
        if a.stored and b.stored: st = lambda *ix: z3.If(c, a.stored(*ix), b.stored(*ix))
        ex = {}
        if a.extra.get('w') or b.extra.get('w'):
            no = lambda *ix: z3.BoolVal(False)
            wa, wb = a.extra.get('w') or no, b.extra.get('w') or no
            ex['w'] = lambda *ix: z3.If(c, wa(*ix), wb(*ix))
        return ArrV(a.kind, [x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a.shape, b.shape)],
                    lambda *ix: z3.If(c, cv(a.get(*ix)), cv(b.get(*ix))), dt, st, a.fmt, **ex)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell: return a
    if isinstance(a, ConcV) and isinstance(b, ConcV) and repr(a) == repr(b): return a
    if isinstance(a, Poison) or isinstance(b, Poison): return Poison('merge')
    raise Unsupported('cannot merge %r and %r' % (a, b))


def mapterms(v, f):
    """apply a term transformation to a structured value (closures compose)"""
    if isinstance(v, P): return P(v.ty, f(v.t))
    if isinstance(v, (NoneV, ConcV, Poison, Ref, Sub)): return v
    if isinstance(v, OptV): return OptV(f(v.isnone), mapterms(v.val, f))
    if isinstance(v, TupV): return TupV([mapterms(x, f) for x in v.items])
    if isinstance(v, ListV):
        if v.items is not None:
            return ListV(v.n, None, v.el, [mapterms(x, f) for x in v.items])
        return ListV(f(v.n), lambda i: mapterms(v.get(i), f), v.el, None, v.gen)
    if isinstance(v, DictV):
        e = v.enum
        return DictV(v.k, v.v, lambda k: f(v.dom(k)), lambda k: mapterms(v.val(k), f),
                     None if e is None else (f(e[0]), lambda i: mapterms(e[1](i), f), lambda k: f(e[2](k))), v.default)
    if isinstance(v, SetV):
        e = v.enum
        return SetV(v.k, lambda k: f(v.dom(k)),
                    None if e is None else (f(e[0]), lambda i: mapterms(e[1](i), f), lambda k: f(e[2](k))))
    if isinstance(v, ObjV): return ObjV(v.cls, {k: mapterms(x, f) for k, x in v.fields.items()})
    if isinstance(v, CDictV): return CDictV({k: mapterms(x, f) for k, x in v.d.items()}, v.default)
    if isinstance(v, ArrV):
        ex = {k: (mapterms(x, f) if isinstance(x, SV) else x) for k, x in v.extra.items() if k in ('npmatrix', 'view')}
        if v.extra.get('w'): ex['w'] = lambda *ix: f(v.extra['w'](*ix))
        return ArrV(v.kind, [f(s) for s in v.shape], lambda *ix: f(v.get(*ix)), v.dt,
                    None if v.stored is None else (lambda *ix: f(v.stored(*ix))), v.fmt, **ex)
    raise Unsupported('mapterms %r' % (v,))


def subst(v, pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs: return v
    return mapterms(v, lambda t: z3.substitute(t, *pairs))


def eqv(a, b):
    """z3 formula: Python equality of two values"""
    if isinstance(a, P) and isinstance(b, P):
        if a.ty == b.ty: return a.t == b.t
        if a.ty in (INT, REAL, BOOL) and b.ty in (INT, REAL, BOOL):
            ty = join_ty(a.ty, b.ty)
            return coerce(a, ty).t == coerce(b, ty).t
        return z3.BoolVal(False)
    if isinstance(a, NoneV) and isinstance(b, NoneV): return z3.BoolVal(True)
    if isinstance(a, NoneV): return b.isnone if isinstance(b, OptV) else z3.BoolVal(False)
    if isinstance(b, NoneV): return a.isnone if isinstance(a, OptV) else z3.BoolVal(False)
    if isinstance(a, OptV) and isinstance(b, OptV):
        return z3.And(a.isnone == b.isnone, z3.Or(a.isnone, eqv(a.val, b.val)))
    if isinstance(a, OptV): return z3.And(z3.Not(a.isnone), eqv(a.val, b))
    if isinstance(b, OptV): return z3.And(z3.Not(b.isnone), eqv(a, b.val))
    if isinstance(a, TupV) and isinstance(b, TupV):
        if len(a.items) != len(b.items): return z3.BoolVal(False)
        return z3.And(*[eqv(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
    if isinstance(a, ListV) and isinstance(b, ListV):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            return z3.And(*[eqv(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if x.items is not None:
                return z3.And(y.n == len(x.items), *[eqv(x.items[k], y.get(z3.IntVal(k)))
                                                     for k in range(len(x.items))])
        i = z3.FreshConst(z3.IntSort(), 'i')
        return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), eqv(a.get(i), b.get(i)))))
    if isinstance(a, DictV) and isinstance(b, DictV):
        if a.k is None or b.k is None:
            o = b if a.k is None else a
            if o.k is None: return z3.BoolVal(True)
            k, cs = keyconst(o.k)
            return z3.ForAll(cs, z3.Not(o.dom(k)))
        k, cs = keyconst(join_ty(a.k, b.k))
        return z3.ForAll(cs, z3.And(a.dom(k) == b.dom(k), z3.Implies(a.dom(k), eqv(a.val(k), b.val(k)))))
    if isinstance(a, SetV) and isinstance(b, SetV):
        kt = join_ty(a.k, b.k)
        if kt is None: return z3.BoolVal(True)
        a, b = coerce(a, TSet(kt)), coerce(b, TSet(kt))
        k, cs = keyconst(kt)
        return z3.ForAll(cs, a.dom(k) == b.dom(k))
    if isinstance(a, CDictV) and isinstance(b, CDictV):
        if set(a.d) != set(b.d): return z3.BoolVal(False)
        return z3.And(*[eqv(a.d[k], b.d[k]) for k in a.d]) if a.d else z3.BoolVal(True)
    if isinstance(a, ConcV) and isinstance(b, ConcV):
        return z3.BoolVal(is_conc(a) and is_conc(b) and conc(a) == conc(b) or a is b)
    if isinstance(a, ObjV) and isinstance(b, ObjV) and a.cls == b.cls and set(a.fields) == set(b.fields):
        return z3.And(*[eqv(a.fields[f], b.fields[f]) for f in a.fields])
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.shape) == len(b.shape):
        ix = [z3.FreshConst(z3.IntSort(), 'i') for _ in a.shape]
        rng = z3.And(*[z3.And(0 <= x, x < d) for x, d in zip(ix, a.shape)])
        return z3.And(*([x == y for x, y in zip(a.shape, b.shape)] +
                        [z3.ForAll(ix, z3.Implies(rng, eqv(P(a.dt, a.get(*ix)), P(b.dt, b.get(*ix)))))]))
    if isinstance(a, (P, TupV, ListV, DictV, SetV)) and isinstance(b, (P, TupV, ListV, DictV, SetV)):
        return z3.BoolVal(False)
    raise Unsupported('equality of %r and %r' % (a, b))


def depends(v, names, depth=0):
    """does a value mention one of the function symbols (by decl name)?  closures are probed at fresh keys"""
    if isinstance(v, P): return term_mentions(v.t, names)
    if isinstance(v, (NoneV, ConcV)): return False
    if isinstance(v, OptV): return term_mentions(v.isnone, names) or depends(v.val, names)
    if isinstance(v, TupV): return any(depends(x, names) for x in v.items)
    if isinstance(v, ListV):
        if v.items is not None: return any(depends(x, names) for x in v.items)
        i = z3.FreshConst(z3.IntSort(), 'i')
        return term_mentions(v.n, names) or depends(v.get(i), names)
    if isinstance(v, DictV):
        if v.k is None: return False
        k, _ = keyconst(v.k)
        return term_mentions(v.dom(k), names) or depends(v.val(k), names)
    if isinstance(v, SetV):
        if v.k is None: return False
        k, _ = keyconst(v.k)
        return term_mentions(v.dom(k), names)
    if isinstance(v, ObjV): return any(depends(x, names) for x in v.fields.values())
    if isinstance(v, CDictV): return any(depends(x, names) for x in v.d.values())
    if isinstance(v, ArrV):
        ix = [z3.FreshConst(z3.IntSort(), 'i') for _ in v.shape]
        return any(term_mentions(s, names) for s in v.shape) or term_mentions(v.get(*ix), names) or \
            (v.stored is not None and term_mentions(v.stored(*ix), names))
    if isinstance(v, (Ref, Sub)): return False
    raise Unsupported('depends %r' % (v,))


def term_mentions(t, names):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() in names: return True
            stack.extend(x.children())
    return False


def pykey(k):
    """SV of a concrete python dict key"""
    if isinstance(k, bool): return B(k)
    if isinstance(k, int): return I(k)
    if isinstance(k, str): return S(k)
    if isinstance(k, float): return R(k)
    if isinstance(k, tuple) and len(k) == 2 and k[0] in ('type', 'class'): return ConcV(k[0], **{'name' if k[0] == 'type' else 'qual': k[1]})
    if isinstance(k, tuple): return TupV([pykey(x) for x in k])
    if k is None: return NONEV
    raise Unsupported('key %r' % (k,))


def cdict_to_dict(v, ty=None):
    keys = [(pykey(k), x) for k, x in v.d.items()]
    if ty is None:
        kt = vt = None
        for k, x in keys:
            kt, vt = join_ty(kt, typeof(k)), join_ty(vt, typeof(x))
        ty = TDict(kt, vt)
    d = empty_dict(ty.k, ty.v)
    n = len(keys)
    keys = [(coerce(k, ty.k), coerce(x, ty.v)) for k, x in keys]
    def dom(q):
        return z3.Or(*[eqv(q, k) for k, _ in keys]) if keys else z3.BoolVal(False)
    def val(q):
        r = dummy(ty.v) if not keys else keys[-1][1]
        for k, x in keys[:-1]: r = ite(eqv(q, k), x, r)
        return r
    def keyat(i):
        if not keys: return dummy(ty.k)
        r = keys[-1][0]
        for j in range(n - 2, -1, -1): r = ite(i == j, keys[j][0], r)
        return r
    def idx(q):
        r = z3.IntVal(n)
        for j, (k, _) in enumerate(keys): r = z3.If(eqv(q, k), z3.IntVal(j), r)
        return r
    return DictV(ty.k, ty.v, dom, val, (z3.IntVal(n), keyat, idx), v.default or ty.default)
