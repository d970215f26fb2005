"""Loops.  A loop over a sequence of symbolic length is decided in one of two ways:

* summarise: the body is executed once for an arbitrary iteration with every location it changes havocked; each
  location's new value Q must be shown (by the solver) to be  P (+) F  for a fixed monoid (+) -- numeric addition,
  list append/extend, set union, dictionary override, pointwise dictionary addition, boolean or/and -- where P is the
  havocked old value and F does not depend on it.  Then the whole loop's effect is P0 (+) F(0) (+) ... (+) F(n-1),
  exactly, with no bound.  Nothing syntactic is assumed about how the body achieves the effect.
* cut_loop: an invariant from the contract is checked on entry, assumed for an arbitrary iteration, shown to be
  preserved, and assumed after the loop.
"""
import ast
import os
import z3
from .values import *
from . import values as V
from .engine import *
from .engine import forall_pat, has_quant, mentions_const, has_ite


class LoopInv(object):
    """types: optional dict var -> Ty for havoc; f(L) -> list of (label, z3 formula)"""
    def __init__(self, f, types=None, after=None): self.f, self.types, self.after = f, types or {}, after


# --------------------------------------------------------------------------------------------- loci
def loci_changed(eng, st0, outs, prelude_env):
    """locations whose value differs between the state before the body and any state after it"""
    ch = []
    for oc, s in outs:
        for name, v in s.env.items():
            if name in st0.env and st0.env[name] is not v and not same_value(st0.env[name], v):
                if ('var', name) not in ch: ch.append(('var', name))
            elif name not in st0.env and ('new', name) not in ch:
                ch.append(('new', name))
        for c, v in s.heap.items():
            if c in st0.heap and st0.heap[c] is not v:
                o = st0.heap[c]
                if isinstance(o, ObjV) and isinstance(v, ObjV):
                    for f in v.fields:
                        if f not in o.fields or (o.fields[f] is not v.fields[f] and not same_value(o.fields[f], v.fields[f])):
                            if ('field', c, f) not in ch: ch.append(('field', c, f))
                elif ('cell', c) not in ch: ch.append(('cell', c))
    return ch


def same_value(a, b):
    if a is b: return True
    if isinstance(a, P) and isinstance(b, P): return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, Ref) and isinstance(b, Ref): return a.cell == b.cell
    if isinstance(a, NoneV) and isinstance(b, NoneV): return True
    if isinstance(a, TupV) and isinstance(b, TupV):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    return False


def get_locus(st, l):
    if l[0] == 'var': return st.env.get(l[1])
    if l[0] == 'cell': return st.heap[l[1]]
    if l[0] == 'field': return st.heap[l[1]].fields.get(l[2])
    if l[0] == 'new': return st.env.get(l[1])


def set_locus(st, l, v):
    if l[0] in ('var', 'new'): st.env[l[1]] = v
    elif l[0] == 'cell': st.heap[l[1]] = v
    elif l[0] == 'field':
        o = st.heap[l[1]]
        st.heap[l[1]] = ObjV(o.cls, dict(o.fields, **{l[2]: v}))


def content_type(eng, st, v):
    v = eng.snap(st, v)
    if isinstance(v, CDictV):
        if not v.d: return TDict(None, None, v.default)
        try:
            kt = vt = None
            for k, x in v.d.items():
                kt, vt = join_ty(kt, typeof(pykey(k))), join_ty(vt, content_type(eng, st, x))
            return TDict(kt, vt)
        except Unsupported:
            return typeof(v)
    if isinstance(v, ListV) and v.items is not None:
        el = None
        for x in v.items: el = join_ty(el, content_type(eng, st, x))
        return TList(el)
    if isinstance(v, ObjV): return TObj(v.cls, **{k: content_type(eng, st, x) for k, x in v.fields.items()})
    return typeof(v)


MUTATORS = ('append', 'extend', 'insert', 'pop', 'popleft', 'appendleft', 'clear', 'sort', 'reverse', 'remove', 'add', 'update', 'discard',
            'setdefault', 'popitem', 'intersection_update', 'difference_update', 'symmetric_difference_update')
PURE = ('set', 'frozenset', 'list', 'tuple', 'sorted', 'len', 'enumerate', 'range', 'zip', 'min', 'max', 'sum', 'any', 'all', 'progbar', 'print', 'isinstance')


def by_value(eng, st, name):
    """may the variable hold a copy instead of the object itself? yes when the function never changes an object in place that the
    variable could share with something else, and never hands the variable to code that might"""
    fr = st.frame
    if fr is None: return False
    node = fr.node
    fresh = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    v = x.value
                    new = isinstance(v, (ast.BinOp, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)) or \
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('set', 'list', 'dict', 'defaultdict', 'sorted')
                    fresh[t.id] = fresh.get(t.id, True) and new
                elif any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.value)) or not isinstance(t, ast.Tuple): return False
        elif isinstance(x, (ast.For, ast.comprehension)):
            for y in ast.walk(x.target):
                if isinstance(y, ast.Name): fresh[y.id] = False
    for x in ast.walk(node):
        if isinstance(x, (ast.Delete, ast.AugAssign, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Lambda, ast.With)): return False
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute) and f.attr in MUTATORS and not (isinstance(f.value, ast.Name) and fresh.get(f.value.id) and f.value.id != name): return False
            args = list(x.args) + [k.value for k in x.keywords]
            if not (isinstance(f, ast.Name) and f.id in PURE) and any(isinstance(y, ast.Name) and y.id == name for a in args for y in ast.walk(a)): return False
        if isinstance(x, (ast.List, ast.Tuple, ast.Dict, ast.Set)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.iter_child_nodes(x)): return False
    return True


def boxed(eng, s, l, v):
    """a variable never holds a container itself"""
    return eng.box(s, v) if l[0] == 'var' and isinstance(v, MUT + (OptV,)) else v


def has_unknown(ty):
    if ty is None: return True
    if isinstance(ty, TList): return has_unknown(ty.el)
    if isinstance(ty, TSet): return has_unknown(ty.k)
    if isinstance(ty, TDict): return has_unknown(ty.k) or has_unknown(ty.v)
    if isinstance(ty, TTup): return any(has_unknown(e) for e in ty.els)
    if isinstance(ty, TOpt): return has_unknown(ty.el)
    return False


class Run(object):
    pass


def iteration(eng, st, iv, body, i, havoc):
    """execute the body for the generic index i with the loci in `havoc` replaced"""
    s = st.fork()
    s.ctx = st.ctx + (i,)
    s.pc = st.pc + (z3.And(0 <= i, i < iv.n),)
    nf = len(s.facts)
    for l, v in havoc.items():
        if l[0] == 'new': s.env.pop(l[1], None)
        else: set_locus(s, l, boxed(eng, s, l, v.at(eng, s, i) if isinstance(v, Closed) else v))
    base = s.fork()
    base.nf0 = nf                       # what is said of the values above holds per iteration
    elem = get_elem(eng, s, iv, i)
    outs = body(s, elem)
    outs = [((('next',) if oc[0] == 'continue' else oc), x) for oc, x in outs]
    for oc, x in outs:
        if oc[0] in ('next', 'break'): settle(base, x)
    return base, outs


def settle(base, s):
    """a variable rebound to a new container, where nothing else refers to the old or the new one: the new content
    moves into the old cell (identities are not observable then)"""
    for k, old in base.env.items():
        new = s.env.get(k)
        if not (isinstance(old, Ref) and isinstance(new, Ref)) or old.cell == new.cell or new.cell in base.heap or k.startswith('*'): continue
        a, b = base.heap.get(old.cell), s.heap.get(new.cell)
        if not any(isinstance(a, q) and isinstance(b, q) for q in (SetV, ListV, (DictV, CDictV))): continue
        if getattr(a, 'default', None) is not getattr(b, 'default', None): continue
        if shared(base, k, old.cell) or shared(s, k, new.cell): continue
        if any(old.cell in reach(s, [v]) for q, v in list(s.env.items()) + [('', s.heap[new.cell])] if isinstance(v, SV) and q != k): continue
        s.heap[old.cell] = s.heap.pop(new.cell)
        s.env[k] = Ref(old.cell) if not isinstance(old, Ref) else old


def shared(st, name, cell):
    rest = [v for k, v in st.env.items() if k != name] + [v for c, v in st.heap.items() if c != cell] + list(st.ghost.values())
    def direct(v):
        if isinstance(v, Ref): return v.cell == cell
        if isinstance(v, Sub): return direct(v.base)
        if isinstance(v, Redirect): return direct(v.to)
        if isinstance(v, TupV): return any(map(direct, v.items))
        if isinstance(v, ListV): return v.items is not None and any(map(direct, v.items))
        if isinstance(v, CDictV): return any(map(direct, v.d.values()))
        if isinstance(v, OptV): return direct(v.val)
        if isinstance(v, ObjV): return any(map(direct, v.fields.values()))
        if isinstance(v, ConcV): return any(direct(x) for x in v.__dict__.values() if isinstance(x, SV)) or any(direct(x) for x in (getattr(v, 'env', None) or {}).values() if isinstance(x, SV))
        return False
    return any(direct(v) for v in rest)


def get_elem(eng, s, iv, i):
    try:
        e = iv.get(i, s)
    except TypeError:
        e = iv.get(i)
    return box_elem(eng, s, e)


def box_elem(eng, s, e):
    if isinstance(e, MUT): return eng.alloc(s, e)
    if isinstance(e, TupV): return TupV([box_elem(eng, s, x) for x in e.items])
    return e


def scan(eng, st, iv, body, i, node=None):
    """find the changed loci and their types, by running the body until nothing new changes"""
    havoc, types = {}, {}
    known = eng.__dict__.setdefault('loop_types', {})
    nk = (id(node), len(st.ctx))
    for l, ty in known.get(nk, {}).items():          # what an earlier visit of this loop found
        if l[0] == 'new':
            if l[1] not in st.env: havoc[l] = None; types[l] = None
            continue
        try:
            pre = get_locus(st, l)
            if pre is None or isinstance(pre, (Ref, Sub, Poison, ConcV, Redirect)): continue
            if join_ty(ty, content_type(eng, st, pre)) != ty: continue
        except (Unsupported, KeyError): continue
        fam = Family(ty, 'P!%d' % uid(), [c.sort() for c in st.ctx] + [z3.IntSort()], enum=False)
        havoc[l] = FamAt(fam, list(st.ctx) + [i], ty, pre); types[l] = ty
    keep = len(eng.obligs)
    for rnd in range(6):
        del eng.obligs[keep:]           # only the last run starts from an arbitrary state of the loop
        base, outs = iteration(eng, st, iv, body, i, havoc)
        ch = loci_changed(eng, base, outs, None)
        grew = False
        for l in ch:
            pre = get_locus(st, l) if l[0] != 'new' else None
            ty = types.get(l)
            new = ty
            ok = True
            if l[0] == 'new':
                types[l] = None
                havoc.setdefault(l, None)
                continue
            try:
                new = join_ty(new, None if pre is None else content_type(eng, st, pre))
                for oc, s in outs:
                    v = get_locus(s, l)
                    if isinstance(v, (Poison, ConcV)): continue
                    if l[0] != 'cell' and isinstance(v, (Ref, Sub)) and not (l[0] == 'var' and by_value(eng, st, l[1])): ok = False; continue
                    new = join_ty(new, content_type(eng, s, v))
            except Unsupported as e:
                ok = False
            if l[0] != 'cell' and isinstance(pre, (Ref, Sub)) and not (l[0] == 'var' and by_value(eng, st, l[1])): ok = False
            if not ok:
                if l not in havoc or not isinstance(havoc[l], Poison):
                    havoc[l] = Poison('%s changed in the loop' % (l[1:],)); types[l] = None; grew = True
                continue
            if l not in havoc or (ty != new and not isinstance(havoc[l], Poison)):
                types[l] = new
                if has_unknown(new):
                    if l not in havoc: havoc[l] = pre; grew = True
                    # an always-empty container: leave as it is
                else:
                    havoc[l] = new
                    grew = True
        # instantiate families
        for l, h in list(havoc.items()):
            if isinstance(h, Ty):
                fam = Family(h, 'P!%d' % uid(), [c.sort() for c in st.ctx] + [z3.IntSort()], enum=False)
                havoc[l] = FamAt(fam, list(st.ctx) + [i], h, get_locus(st, l))
        if not grew:
            known[nk] = {l: types.get(l) for l in havoc if l[0] == 'new' or types.get(l) is not None and isinstance(havoc[l], FamAt)}
            return havoc, types, base, outs
        havoc_run = {l: (h.value() if isinstance(h, FamAt) else h) for l, h in havoc.items()}
        hv = havoc
        havoc = HavocDict(hv)
    raise Unsupported('loop state does not stabilise')


class Closed(object):
    """the value of a location before iteration i, when its effect per iteration is known"""
    def __init__(self, kind, F, pre, ty, l, i0): self.kind, self.F, self.pre, self.ty, self.l, self.i0 = kind, F, pre, ty, l, i0
    def at(self, eng, s, i):
        i2 = z3.FreshConst(z3.IntSort(), 'it')
        sub = lambda x: z3.substitute(x, (self.i0, i2)) if z3.is_expr(x) else subst(x, [(self.i0, i2)])
        F = tuple(sub(x) for x in self.F) if isinstance(self.F, tuple) else sub(self.F)
        if getattr(self.F, 'loose', False): F.loose = True
        pre = self.pre
        if self.l[0] == 'var' and isinstance(pre, (Ref, Sub)): pre = eng.snap(s, pre)
        return combine(eng, s, self.kind, F, pre, i2, i, self.ty, self.l)


class FamAt(object):
    def __init__(self, fam, args, ty, pre): self.fam, self.args, self.ty, self.pre = fam, args, ty, pre
    def value(self):
        v = self.fam.at(self.args)
        d = getattr(self.pre, 'default', None)
        if isinstance(v, DictV) and d is not None: v.default = d
        if isinstance(v, ArrV) and isinstance(self.pre, ArrV) and len(v.shape) == len(self.pre.shape):
            v = ArrV(v.kind, self.pre.shape, v.get, v.dt, v.stored, self.pre.fmt, **{k: x for k, x in self.pre.extra.items() if k in ('npmatrix',)})
        return v
    def names(self): return set(f.decl().name() if z3.is_expr(f) else f.name() for f in self.fam.all_funs())


class HavocDict(dict):
    def items(self):
        for l, h in dict.items(self):
            yield l, h


def resolve_havoc(havoc):
    return {l: (h.value() if isinstance(h, FamAt) else h) for l, h in dict.items(havoc)}


# patch iteration to accept FamAt values
_iter0 = iteration


def iteration(eng, st, iv, body, i, havoc):          # noqa: F811
    return _iter0(eng, st, iv, body, i, resolve_havoc(havoc))


def sub_family(t, fam, ty_value):
    """replace the family's functions in a term by an `empty` value of the monoid"""
    pairs = []
    consts = []
    for f, body in ty_value(fam):
        if z3.is_expr(f): consts.append((f, body))
        else: pairs.append((f, body))
    if consts: t = z3.substitute(t, *consts)
    if pairs: t = z3.substitute_funs(t, *pairs)
    return t


def neutral(fam, mode):
    """[(function, replacement body)] turning the family into the neutral element"""
    ty = fam.ty
    out = []
    if isinstance(ty, TPrim):
        if ty == BOOL: out.append((fam.f, z3.BoolVal(mode == 'and')))
        elif ty == INT: out.append((fam.f, z3.IntVal(0)))
        elif ty == REAL: out.append((fam.f, z3.RealVal(0)))
    elif isinstance(ty, TList):
        out.append((fam.f, z3.IntVal(0)))
        out += arbitrary(fam.subs[0])
    elif isinstance(ty, (TDict, TSet)):
        out.append((fam.fdom, z3.BoolVal(False)))
        if isinstance(ty, TDict):
            out += neutral(fam.subs[0], mode) or arbitrary(fam.subs[0])
    return out


def is_any(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.decl().name().startswith('any!') or t.decl().name().startswith('dummy!'))


def strip_any(t):
    """drop the branches of conditionals that are arbitrary (the caller proves that the result is right where it is used)"""
    cache = {}
    def go(x):
        k = x.get_id()
        if k in cache: return cache[k][1]
        r = x
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() != z3.BoolSort():
                c, a, b = x.children()
                if is_any(b): r = go(a)
                elif is_any(a): r = go(b)
                else: r = rebuild(x)
            else: r = rebuild(x)
        cache[k] = (x, r)
        return r
    def rebuild(x):
        ch = x.children()
        nc = [go(c) for c in ch]
        if all(a is b or a.eq(b) for a, b in zip(ch, nc)): return x
        return x.decl()(*nc) if not (z3.is_and(x) or z3.is_or(x)) else (z3.And if z3.is_and(x) else z3.Or)(*nc)
    return go(t)


def arbitrary(fam):
    """replace a family by arbitrary constants (values that are never looked at)"""
    return [(f, z3.Const('any!%s' % (f.range() if isinstance(f, z3.FuncDeclRef) else f.sort()),
                         f.range() if isinstance(f, z3.FuncDeclRef) else f.sort())) for f in fam.all_funs()]


def counters(eng, st, havoc, outs):
    """{location: step} of the integers that change by the same constant in every iteration"""
    res = {}
    for l, h in dict.items(havoc):
        if not isinstance(h, FamAt) or h.ty != INT or l[0] == 'new': continue
        pre = get_locus(st, l)
        if not (isinstance(pre, P) and pre.ty == INT): continue
        p, step = h.value().t, None
        for oc, s in outs:
            if oc[0] != 'next': continue
            v = get_locus(s, l)
            c = int_value(z3.simplify(v.t - p)) if isinstance(v, P) and v.ty == INT else None
            if c is None or step not in (None, c): step = None; break
            step = c
        if step: res[l] = step
    return res


CLOSED = ('add', 'or', 'and', 'union', 'concat1', 'concat', 'flat', 'override', 'override2', 'additive', 'dconcat', 'setlast', 'inter', 'optand', 'unionset')


def summarise(eng, st, iv, body, node, strict=False):
    i = z3.FreshConst(z3.IntSort(), 'it')
    keep = len(eng.obligs)
    havoc, types, base, outs = scan(eng, st, iv, body, i, node)
    havoc = HavocDict(havoc)
    npc = len(base.pc)
    steps = counters(eng, st, havoc, outs)
    if steps:
        # scalars that grow by the same amount in every iteration are known in closed form
        for l, c in steps.items(): dict.__setitem__(havoc, l, P(INT, get_locus(st, l).t + c * i))
        del eng.obligs[keep:]
        base, outs = iteration(eng, st, iv, body, i, havoc)
        for l, c in steps.items():
            for oc, s in outs:
                if oc[0] == 'next' and not tr(z3.simplify(get_locus(s, l).t == get_locus(st, l).t + c * (i + 1))): raise Unsupported('counter')
        npc = len(base.pc)
    if any(oc[0] not in ('next',) for oc, s in outs):
        had = list(eng.obligs)
        del eng.obligs[keep:]
        r = growing(eng, st, iv, body, i, havoc)
        if r is None: eng.obligs[:] = had
        if r is not None:
            base, outs = r
    nfacts = base.nf0
    fams = {l: h for l, h in dict.items(havoc) if isinstance(h, FamAt)}
    effects = {}

    def rel(s): return s.pc[npc:]

    # facts of the iteration, closed over the index
    def close_facts(s, upto):
        res = []
        for f, pc in s.facts[nfacts:]:
            g = pc[npc:]
            if any(term_mentions(x, pnames) for x in g) or term_mentions(f, pnames): continue
            res.append(close(i, z3.And(0 <= i, i < upto, *g), f))
        return res

    for rnd in range(5):
        pnames = set()
        for l, h in fams.items():
            if not isinstance(dict.get(havoc, l), Closed): pnames |= h.names()
        nexts = [(s, z3.And(*rel(s)) if rel(s) else z3.BoolVal(True)) for oc, s in outs if oc[0] == 'next']
        exits = [(oc, s, z3.And(*rel(s)) if rel(s) else z3.BoolVal(True)) for oc, s in outs if oc[0] != 'next']
        all_states = [s for s, _ in nexts] + [s for _, s, _ in exits]
        failed = None
        for oc, s, c in exits:
            if term_mentions(c, pnames): failed = Unsupported('loop exit depends on loop-carried state'); break
        # effect of one iteration on each locus
        for l, h in dict.items(havoc):
            if l in effects and effects[l] != ('last', None): continue
            if l in steps: effects[l] = ('add', P(INT, z3.IntVal(steps[l])))
            elif isinstance(h, FamAt):
                eng.loop_node = id(node)
                try: effects[l] = effect(eng, base, h, l, nexts, i, pnames, fams)
                except Unsupported as e: failed = failed or e
            elif l[0] == 'new' or isinstance(h, Poison):
                effects[l] = ('last', last_value(l, nexts, pnames))
            else:
                # a container whose element type never became known must stay as it is
                for s, _ in nexts:
                    v = get_locus(s, l)
                    if v is h or same_value(v, h): continue
                    v = eng.snap(s, v)
                    if isinstance(v, (CDictV, ListV)) and not (v.d if isinstance(v, CDictV) else v.items is None or v.items): continue
                    raise Unsupported('container of unknown element type changed in a loop')
        if failed is None: break
        # what is known of some locations in closed form may settle the others: once more, from these values
        now = [l for l in fams if l in effects and effects[l][0] in CLOSED and not isinstance(dict.get(havoc, l), Closed) and l not in steps]
        if not now: raise failed
        st = st.fork()
        for x in all_states:
            for f in close_facts(x, iv.n): eng.assume(st, f)
        for l in now: dict.__setitem__(havoc, l, Closed(effects[l][0], effects[l][1], get_locus(st, l), fams[l].ty, l, i))
        del eng.obligs[keep:]
        base, outs = iteration(eng, st, iv, body, i, havoc)
        npc, nfacts = len(base.pc), base.nf0
    else: raise failed
    if strict and any(effects.get(l) == ('last', None) and l[0] == 'var' for l in fams): raise Unsupported('value carried through a loop')

    if exits: upto = eng.fresh_fn(st, 'nit', z3.IntSort())()
    else: upto = iv.n

    def prefix_state(s, n):
        """effects of iterations 0..n-1 applied to s"""
        for l, (kind, F) in effects.items():
            if kind == 'same': continue
            pre = get_locus(st, l) if l[0] != 'new' else None
            if kind == 'last':
                if F is None: v = Poison('value of the last iteration')
                elif known_pos(eng, s, n): v = subst(F, [(i, n - 1)])
                elif pre is not None and not isinstance(pre, (Ref, Sub)):
                    try: v = ite(n > 0, subst(F, [(i, n - 1)]), pre)
                    except Unsupported: v = Poison('value of the last iteration')
                else: v = Poison('value of the last iteration')
                set_locus(s, l, v)
                continue
            if l in steps: set_locus(s, l, P(INT, pre.t + steps[l] * n)); continue
            if l[0] == 'var' and isinstance(pre, (Ref, Sub)): pre = eng.snap(s, pre)
            set_locus(s, l, boxed(eng, s, l, combine(eng, s, kind, F, pre, i, n, fams[l].ty if l in fams else None, l)))
        for l in effects:
            if l[0] == 'cell' and effects[l][0] != 'same':
                s.over[l[1]] = s.over.get(l[1], ()) + (((None, None),) if effects[l][0] not in ('concat1', 'concat', 'flat', 'add', 'additive') else ())
        return s

    results = []
    seenf = set()
    def add_facts(s, srcs, n):
        for x in srcs:
            for f in close_facts(x, n):
                if f.get_id() not in seenf or True: eng.assume(s, f)

    s = st.fork()
    noexit = None
    if exits:
        noexit = z3.Not(z3.Or(*[c for _, _, c in exits]))
        if any(has_quant(c) for _, _, c in exits) and not any(term_mentions(c, pnames) for _, c in nexts):
            # the exits of an inner loop are stated with witnesses: the paths that go on say more
            noexit = z3.Or(*[c for _, c in nexts]) if nexts else z3.BoolVal(False)
    add_facts(s, all_states, iv.n)
    if noexit is not None:
        s.pc = s.pc + (close(i, z3.And(0 <= i, i < iv.n), noexit, True),)
    if exits:
        ok = eng.feasible(s)
    else: ok = True
    if ok:
        results.append((('exhausted',), prefix_state(s, iv.n)))
    if exits:
        b = eng.fresh_fn(st, 'exit', z3.IntSort())()
        s = st.fork()
        add_facts(s, all_states, iv.n)
        s.pc = s.pc + (z3.And(0 <= b, b < iv.n), close(i, z3.And(0 <= i, i < b), noexit, True))
        s = prefix_state(s, b)
        anyexit = z3.substitute(z3.Or(*[c for _, _, c in exits]), (i, b))
        s.pc = s.pc + (anyexit,)
        if eng.feasible(s):
            elem = get_elem(eng, s, iv, b)
            for oc, s2 in body(s, elem):
                if oc[0] in ('next', 'continue'):
                    if eng.feasible(s2) and eng.check_valid(s2, z3.BoolVal(False), 2.0) is not True:
                        raise Unsupported('loop exit could not be separated')
                    continue
                results.append((oc, s2))
    return results


def growing(eng, st, iv, body, i, havoc):
    """run the iteration knowing that dictionaries only gain keys in the loop (checked); None when that is no help"""
    def grows(a, b, ty):
        k, c = keyconst(ty.k)
        fs = [(c, a.dom(k), b.dom(k), [b.dom(k)])]
        if isinstance(ty.v, TDict):
            q, d = keyconst(ty.v.k)
            fs.append((c + d, z3.And(a.dom(k), a.val(k).dom(q)), b.val(k).dom(q), [b.val(k).dom(q)]))
        return fs
    st2 = st.fork()
    ds = []
    for l, h in dict.items(havoc):
        if not isinstance(h, FamAt) or not isinstance(h.ty, TDict): continue
        pre = get_locus(st, l)
        if not isinstance(pre, (DictV, CDictV)): continue
        pre = eng.snap(st2, pre)
        if isinstance(pre, CDictV) and not pre.d or isinstance(pre, DictV) and pre.k is None: continue
        pre = to_dict(eng, st2, pre, h.ty)
        H = eng.snap(st2, h.value())
        ds.append((l, h, H))
        for cs, a, b, pats in grows(pre, H, h.ty):
            if tr(z3.Implies(a, b)): continue
            if has_quant(b) or z3.is_and(b) or z3.is_or(b) or z3.is_not(b): continue
            eng.assume(st2, z3.ForAll(cs, z3.Implies(a, b), patterns=pats))
    if not ds: return None
    base, outs = iteration(eng, st2, iv, body, i, havoc)
    for l, h, H in ds:
        for oc, s in outs:
            if oc[0] != 'next': continue
            Q = get_locus(s, l)
            if Q is H: continue
            Q = eng.snap(s, Q)
            if not isinstance(Q, DictV): return None
            for cs, a, b, _ in grows(H, Q, h.ty):
                if eng.check_valid(s, z3.ForAll(cs, z3.Implies(a, b)), 2.0) is not True: return None
    return base, outs


def has_quant(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        if z3.is_app(x): stack.extend(x.children())
    return False


def known_pos(eng, s, n):
    return eng.known(s, n > 0)


def close(i, rng, f, strong=False):
    """ForAll i. rng -> f, merging with an inner universal quantifier"""
    if z3.is_quantifier(f) and f.is_forall():
        nv = f.num_vars()
        vs = [z3.FreshConst(f.var_sort(k), 'q') for k in range(nv)]
        body = z3.substitute_vars(f.body(), *reversed(vs))
        pats = []
        for k in range(f.num_patterns()):
            p = f.pattern(k)
            terms = [z3.substitute_vars(p.arg(j), *reversed(vs)) for j in range(p.num_args())]
            if any(mentions_const(t, i) for t in terms): pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
        b = z3.Implies(rng, body)
        try:
            return z3.ForAll([i] + vs, b, patterns=pats) if pats else z3.ForAll([i] + vs, b)
        except z3.Z3Exception:
            return z3.ForAll([i] + vs, b)
    if not mentions_const(f, i) and not mentions_const(rng, i): return f
    g = z3.simplify(f)
    at = {}
    for t in apps_over(g, i):
        for a in t.children():
            if mentions_const(a, i): at[a.get_id()] = a
    if len(at) == 1:
        a = list(at.values())[0]
        c = z3.simplify(a + i)
        if z3.is_int(a) and not a.eq(i) and not mentions_const(c, i):
            # counting down: quantify over the position itself
            u = z3.FreshConst(z3.IntSort(), 'u')
            return z3.ForAll([u], z3.simplify(z3.substitute(z3.Implies(rng, g), (i, c - u))))
    return z3.ForAll([i], z3.Implies(rng, f))


def apps_over(t, k):
    """uninterpreted applications in t with an argument that mentions the constant k outside any further such application"""
    out, seen = [], set()
    def go(x):
        # does x mention k outside uninterpreted applications?
        if x.eq(k): return True
        if z3.is_quantifier(x) or not z3.is_app(x): return False
        r = [go(a) for a in x.children()]
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if any(r) and x.get_id() not in seen: seen.add(x.get_id()); out.append(x)
            return False
        return any(r)
    go(t)
    return out


def merge_values(eng, vals):
    """ite-chain over (value, condition)"""
    r = vals[-1][0]
    for v, c in reversed(vals[:-1]): r = ite(c, v, r)
    return r


def last_value(l, nexts, pnames):
    vals = []
    for s, c in nexts:
        v = get_locus(s, l)
        if v is None or isinstance(v, (Poison, Ref, Sub)): return None
        vals.append((v, c))
    if not vals: return None
    try:
        r = merge_values(None, vals)
        if depends(r, pnames): return None
        return r
    except Unsupported:
        return None


def effect(eng, base, h, l, nexts, i, pnames, fams):
    """(kind, F) with the proof that one iteration maps P to P (+) F"""
    if not nexts: return ('same', None)
    vals = []
    if l[0] in ('cell', 'field') and l[1] in eng.by_invariant and any(get_locus(s, l) is not h.value() for s, _ in nexts): raise Unsupported('described by an invariant')
    for s, c in nexts:
        v = get_locus(s, l)
        if isinstance(v, Poison): return ('last', None)
        if isinstance(v, Redirect): raise Unsupported('container moved inside a loop')
        v = coerce(eng.snap(s, v), h.ty)
        vals.append((v, c))
    P0 = h.value()
    if all(v is P0 or same_value(v, P0) for v, _ in vals): return ('same', None)
    Q = merge_values(eng, vals)
    # the conditions under which the merged value is meaningful: some next path
    facts = []
    for s, _ in nexts: facts += [z3.Implies(z3.And(*pc[len(base.pc):]) if pc[len(base.pc):] else z3.BoolVal(True), f)
                                 for f, pc in s.facts[len(base.facts):]]
    facts.append(z3.Or(*[c for _, c in nexts]))
    others = pnames - h.names()
    mine = h.names()

    def valid(g): return eng.check_valid(base, g, 4.0, facts, quick=True) is True

    def neut(v, mode='or'):
        F = mapterms(v, lambda t: strip_any(sub_family(t, h.fam, lambda fam: neutral(fam, mode))))
        if depends(F, pnames):
            # a case distinction on other loop-carried state that makes no difference here: pick a case (validity is proved for all)
            for o in fams.values():
                if o.fam is not h.fam: F = mapterms(F, lambda t, o=o: strip_any(sub_family(t, o.fam, lambda fam: neutral(fam, 'or') or arbitrary(fam))))
        return F

    ty = h.ty
    def indep(F): return not depends(F, pnames)
    def guarded_last():
        """some iterations set the value, the others leave it alone: what counts is the last one that sets it"""
        def kept(v):
            if v is P0 or same_value(v, P0): return True
            try: return all(x.eq(y) for x, y in zip(flat(v), flat(P0)))
            except Unsupported: return False
        sets = [(v, c) for v, c in vals if not kept(v)]
        keeps = [c for v, c in vals if kept(v)]
        if not sets or any(depends(v, pnames) or term_mentions(c, pnames) for v, c in sets): return None
        if any(term_mentions(c, pnames) for c in keeps): return None
        return ('setlast', (z3.Or(*[c for v, c in sets]), merge_values(eng, sets)))
    if isinstance(ty, TOpt) and isinstance(ty.el, TSet):
        # nothing yet, then the intersection of what every iteration brings
        k, cs = keyconst(ty.el.k)
        F = mapterms(Q, lambda t: strip_any(sub_family(t, h.fam, lambda fam: [(fam.f, z3.BoolVal(True))] + arbitrary(fam.subs[0]))))
        if isinstance(F, OptV) and indep(F.val) and valid(z3.And(z3.Not(Q.isnone), Q.val.dom(k) == z3.And(z3.Or(P0.isnone, P0.val.dom(k)), F.val.dom(k)))):
            return ('optand', F.val)
    if isinstance(ty, (TOpt, TTup)):
        if all(not depends(v, pnames) for v, _ in vals): return ('last', Q)
        return guarded_last() or ('last', None)
    if isinstance(ty, TPrim):
        q = Q.t; p = P0.t
        if valid(q == p): return ('same', None)
        if not term_mentions(q, pnames): return ('last', Q)
        if ty in (INT, REAL):
            F = neut(Q)
            if indep(F) and valid(q == p + F.t): return ('add', F)
        if ty == BOOL:
            F = neut(Q, 'or')
            if indep(F) and valid(q == z3.Or(p, F.t)): return ('or', F)
            F = neut(Q, 'and')
            if indep(F) and valid(q == z3.And(p, F.t)): return ('and', F)
        return guarded_last() or ('last', None)       # nothing is known of it after the loop; reading it then is an error of the contract
    if isinstance(ty, TList):
        F = neut(Q)
        if not depends(F, pnames):
            j = z3.FreshConst(z3.IntSort(), 'j')
            goals = [Q.n == P0.n + F.n, F.n >= 0]
            g2 = z3.Implies(z3.And(0 <= j, j < P0.n), eqv_det(Q.get(j), P0.get(j)))
            g3 = z3.Implies(z3.And(0 <= j, j < F.n), eqv_det(Q.get(P0.n + j), F.get(j)))
            if valid(z3.And(P0.n >= 0, True)) is None: pass
            if valid(z3.And(*goals)) and valid(g2) and valid(g3):
                if valid(F.n == 1): return ('concat1', F)
                if valid(z3.Or(F.n == 0, F.n == 1)): return ('concat', F)
                return ('flat', F)
        # element overwritten in place etc.
        raise Unsupported('list %s updated in a way that needs an invariant' % (l[1:],))
    if isinstance(ty, TSet):
        F = neut(Q)
        if indep(F):
            k, cs = keyconst(ty.k)
            if valid(Q.dom(k) == z3.Or(P0.dom(k), F.dom(k))): return ('union', F)
        F = mapterms(Q, lambda t: strip_any(sub_family(t, h.fam, lambda fam: [(fam.fdom, z3.BoolVal(True))])))
        if indep(F):
            k, cs = keyconst(ty.k)
            if valid(Q.dom(k) == z3.And(P0.dom(k), F.dom(k))): return ('inter', F)
        raise Unsupported('set %s updated in a way that needs an invariant' % (l[1:],))
    if isinstance(ty, TDict):
        k, cs = keyconst(ty.k)
        def t_override():
            F = mapterms(Q, lambda t: strip_any(sub_family(t, h.fam, lambda fam: [(fam.fdom, z3.BoolVal(False))] + arbitrary(fam.subs[0]))))
            if indep(F) and valid(z3.And(Q.dom(k) == z3.Or(P0.dom(k), F.dom(k)), z3.Implies(Q.dom(k), eqv_det(Q.val(k), ite(F.dom(k), F.val(k), P0.val(k)))))):
                return ('override', F)
        box = {}
        def base_F():
            if 'F' not in box:
                F = neut(Q)
                box['F'] = F if indep(F) and valid(Q.dom(k) == z3.Or(P0.dom(k), F.dom(k))) else None
            return box['F']
        def t_additive():
            F = base_F()
            if F is not None and additive(valid, Q, P0, F, k, ty): return ('additive', F)
        def t_loose():
            F = base_F()
            if F is None or not (isinstance(ty.v, TDict) and isinstance(ty.v.v, TPrim)): return None
            # entries of rows that are already there
            F2 = DictV(F.k, F.v, F.dom, F.val); F2.loose = True
            k2, _ = keyconst(ty.v.k)
            if valid(z3.Implies(pair_dom(F2, k, k2), Q.dom(k))) and additive(valid, Q, P0, F2, k, ty): return ('additive', F2)
        def t_override2():
            F = base_F()
            if F is None or not isinstance(ty.v, TDict): return None
            k2, _ = keyconst(ty.v.k)
            pd = z3.And(P0.dom(k), P0.val(k).dom(k2))
            fd = pair_dom(F, k, k2)
            if valid(z3.Implies(Q.dom(k), Q.val(k).dom(k2) == z3.Or(pd, fd))) and \
               valid(z3.Implies(z3.And(Q.dom(k), Q.val(k).dom(k2)), eqv_det(Q.val(k).val(k2), ite(fd, F.val(k).val(k2), P0.val(k).val(k2))))):
                return ('override2', F)
        def t_dconcat():
            # entries are lists that get longer: at most one element per key and iteration
            if not isinstance(ty.v, TList): return None
            F = base_F()
            if F is None: return None
            j = z3.FreshConst(z3.IntSort(), 'j')
            pv, fv, qv = P0.val(k), F.val(k), Q.val(k)
            pn, fn = z3.If(P0.dom(k), pv.n, 0), z3.If(F.dom(k), fv.n, 0)
            if not valid(z3.Implies(F.dom(k), fv.n == 1)): return None
            if valid(z3.Implies(Q.dom(k), qv.n == pn + fn)) and \
               valid(z3.Implies(z3.And(P0.dom(k), 0 <= j, j < pv.n), eqv_det(qv.get(j), pv.get(j)))) and \
               valid(z3.Implies(F.dom(k), eqv_det(qv.get(pn), fv.get(z3.IntVal(0))))): return ('dconcat', F)
        def t_unionset():
            # entries are sets that grow
            if not isinstance(ty.v, TSet): return None
            F = base_F()
            if F is None: return None
            k2, _ = keyconst(ty.v.k)
            if valid(z3.Implies(Q.dom(k), Q.val(k).dom(k2) == z3.Or(z3.And(P0.dom(k), P0.val(k).dom(k2)), pair_dom(F, k, k2)))): return ('unionset', F)
        tests = [('dconcat', t_dconcat)] if isinstance(ty.v, TList) else [('unionset', t_unionset)] if isinstance(ty.v, TSet) else []
        tests += [('override', t_override), ('additive', t_additive), ('loose', t_loose), ('override2', t_override2)]
        hints = eng.__dict__.setdefault('hints', {})
        hk = (getattr(eng, 'loop_node', None), repr(l), repr(ty))
        tests.sort(key=lambda t: t[0] != hints.get(hk))
        for nm, t in tests:
            r = t()
            if r: hints[hk] = nm; return r
        raise Unsupported('dictionary %s updated in a way that needs an invariant' % (l[1:],))
    if isinstance(ty, TObj):
        raise Unsupported('object %s updated in a loop' % (l,))
    if isinstance(ty, TArr):
        h2 = eng.methods.get(('arr', 'loop_effect'))
        if h2: return h2(eng, base, h, l, Q, P0, valid, pnames)
        raise Unsupported('array updated in a loop')
    raise Unsupported('loop effect on %r' % (ty,))


def pair_dom(F, k, k2):
    """does the effect touch the entry (k, k2)?"""
    if getattr(F, 'loose', False): return F.val(k).dom(k2)
    return z3.And(F.dom(k), F.val(k).dom(k2))


def additive(valid, Q, P0, F, k, ty):
    """pointwise numeric addition, through nested dictionaries"""
    if isinstance(ty.v, TPrim) and ty.v in (INT, REAL):
        z = z3.IntVal(0) if ty.v == INT else z3.RealVal(0)
        p = z3.If(P0.dom(k), P0.val(k).t, z)
        f = z3.If(F.dom(k), F.val(k).t, z)
        return valid(z3.Implies(Q.dom(k), Q.val(k).t == p + f))
    if isinstance(ty.v, TDict) and isinstance(ty.v.v, TPrim) and ty.v.v in (INT, REAL):
        k2, _ = keyconst(ty.v.k)
        z = z3.IntVal(0) if ty.v.v == INT else z3.RealVal(0)
        pd = z3.And(P0.dom(k), P0.val(k).dom(k2))
        fd = pair_dom(F, k, k2)
        p = z3.If(pd, P0.val(k).val(k2).t, z)
        f = z3.If(fd, F.val(k).val(k2).t, z)
        return valid(z3.Implies(Q.dom(k), Q.val(k).dom(k2) == z3.Or(pd, fd))) and \
            valid(z3.Implies(z3.And(Q.dom(k), Q.val(k).dom(k2)), Q.val(k).val(k2).t == p + f))
    return False


def eqv_det(a, b):
    """equality of two values without quantifiers (probed at fresh keys: implicitly universal in a validity check)"""
    if isinstance(a, DictV) and isinstance(b, DictV):
        if a.k is None or b.k is None: return eqv(a, b)
        k, _ = keyconst(a.k)
        return z3.And(a.dom(k) == b.dom(k), z3.Implies(a.dom(k), eqv_det(a.val(k), b.val(k))))
    if isinstance(a, ListV) and isinstance(b, ListV) and a.items is None and b.items is None:
        i = z3.FreshConst(z3.IntSort(), 'i')
        return z3.And(a.n == b.n, z3.Implies(z3.And(0 <= i, i < a.n), eqv_det(a.get(i), b.get(i))))
    if isinstance(a, SetV) and isinstance(b, SetV) and a.k is not None:
        k, _ = keyconst(a.k)
        return a.dom(k) == b.dom(k)
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
        return z3.And(*[eqv_det(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
    if isinstance(a, ObjV) and isinstance(b, ObjV) and set(a.fields) == set(b.fields):
        return z3.And(*[eqv_det(a.fields[f], b.fields[f]) for f in a.fields])
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        ix = [z3.FreshConst(z3.IntSort(), 'i') for _ in a.shape]
        rng = z3.And(*[z3.And(0 <= x, x < d) for x, d in zip(ix, a.shape)])
        return z3.And(*([x == y for x, y in zip(a.shape, b.shape)] +
                        [z3.Implies(rng, eqv(P(a.dt, a.get(*ix)), P(b.dt, b.get(*ix))))]))
    return eqv(a, b)


# --------------------------------------------------------------------------------------------- whole-loop effects
def zero_lit(t): return (z3.is_int_value(t) or z3.is_rational_value(t)) and z3.simplify(t == 0).eq(z3.BoolVal(True))


def prefix_sum(eng, s, term, i, extra, n):
    """sum_{i<n} term; `extra` are further parameters (key constants)"""
    if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE and zero_lit(term.arg(2)):
        cl = closed_iter(term.arg(0), list(extra), i, n)
        if cl is not None:
            r = z3.If(cl[0], cl[1](term.arg(1)), term.arg(2))
            return lambda ex, m=n: z3.substitute(r, *zip(extra, ex)) if extra else r
    d = eng.new_sum(list(s.ctx) + list(extra), i, term)
    return lambda ex, m=n: d.at(list(s.ctx) + list(ex), m)


def combine(eng, s, kind, F, pre, i, n, ty, l):
    if kind == 'add':
        c = z3.simplify(F.t)
        if z3.is_int_value(c) or z3.is_rational_value(c):
            nn = n if F.ty == INT else z3.ToReal(n)
            return P(F.ty, coerce(pre, F.ty).t + c * nn)
        return P(F.ty, coerce(pre, F.ty).t + prefix_sum(eng, s, F.t, i, [], n)([]))
    if kind == 'setlast':
        cond, val = F
        w = eng.fresh_fn(s, 'w', z3.IntSort())()
        b = eng.fresh_fn(s, 'any', z3.BoolSort())()
        at = lambda t: z3.substitute(cond, (i, t))
        j = z3.FreshConst(z3.IntSort(), 'j')
        eng.assume(s, z3.Implies(b, z3.And(0 <= w, w < n, at(w))),
                   close(i, z3.And(0 <= i, i < n, cond), b),
                   close(i, z3.And(w < i, i < n), z3.Not(z3.And(b, cond))))
        return ite(b, coerce(subst(val, [(i, w)]), ty), coerce(eng.snap(s, pre), ty))
    if kind in ('or', 'and'):
        w = eng.fresh_fn(s, 'w', z3.IntSort())()
        b = eng.fresh_fn(s, 'any', z3.BoolSort())()
        cond = F.t if kind == 'or' else z3.Not(F.t)
        eng.assume(s, z3.Implies(b, z3.And(0 <= w, w < n, z3.substitute(cond, (i, w)))),
                   close(i, z3.And(0 <= i, i < n, cond), b))
        return P(BOOL, z3.Or(pre.t, b) if kind == 'or' else z3.And(pre.t, z3.Not(b)))
    if kind == 'concat1':
        el = ty.el
        f = lambda j: coerce(subst(F.get(z3.IntVal(0)), [(i, j)]), el)
        if (pre.items is not None and not pre.items) or tr(pre.n == 0): return ListV(n, f, el)
        pre = eng.snap(s, pre)
        return ListV(pre.n + n, lambda j: ite(j < pre.n, coerce(pre.get(j), el), f(j - pre.n)), el)
    if kind == 'concat':
        el = ty.el
        cond = z3.simplify(F.n == 1)
        c = lambda t: z3.substitute(cond, (i, t))
        # lists filtered by the same condition over the same range share the functions
        ck = ('filter', z3.simplify(z3.substitute(cond, (i, z3.Int('flat!i')))).sexpr(), n.sexpr(), tuple(x.sexpr() for x in s.ctx))
        if not hasattr(eng, 'flats'): eng.flats = {}
        if ck not in eng.flats:
            eng.flats[ck] = (eng.fresh_fn(s, 'cnt', z3.IntSort())(), eng.fresh_fn(s, 'pos', z3.IntSort(), z3.IntSort()), eng.fresh_fn(s, 'inv', z3.IntSort(), z3.IntSort()))
        m, pos, inv = eng.flats[ck]
        eng.__dict__.setdefault('selections', []).append((pos, inv, m, c))
        j, j2, k = [z3.FreshConst(z3.IntSort(), x) for x in 'jhk']
        eng.assume(s, m >= 0, m <= n,
                   z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= pos(j), pos(j) < n, c(pos(j)),
                                                                         inv(pos(j)) == j)), patterns=[pos(j)]),
                   z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), pos(j) < pos(j2)),
                             patterns=[z3.MultiPattern(pos(j), pos(j2))]))
        body = z3.Implies(z3.And(0 <= k, k < n, c(k)), z3.And(0 <= inv(k), inv(k) < m, pos(inv(k)) == k))
        eng.assume(s, z3.ForAll([k], body, patterns=[inv(k)]))
        if getattr(eng, 'hint', None) is not None and not s.ctx: eng.assume(s, z3.ForAll([k], z3.Implies(eng.hint(k), body), patterns=[eng.hint(k)]))
        trig = index_terms(c(k), k) or index_terms_sv(subst(F.get(z3.IntVal(0)), [(i, k)]), k)
        eng.assume(s, forall_pat([k], body, trig[:1]))
        f = lambda t: coerce(subst(F.get(z3.IntVal(0)), [(i, pos(t))]), el)
        r_empty = (pre.items is not None and not pre.items)
        if r_empty: return ListV(m, f, el)
        pre = eng.snap(s, pre)
        return ListV(pre.n + m, lambda t: ite(t < pre.n, coerce(pre.get(t), el), f(t - pre.n)), el)
    if kind == 'flat':
        el = ty.el
        ln = lambda t: z3.substitute(F.n, (i, t))
        # lists that grow by the same numbers of elements share the offset functions
        ck = (z3.simplify(z3.substitute(F.n, (i, z3.Int('flat!i')))).sexpr(), n.sexpr(), tuple(c.sexpr() for c in s.ctx))
        if not hasattr(eng, 'flats'): eng.flats = {}
        if ck not in eng.flats:
            eng.flats[ck] = (eng.fresh_fn(s, 'off', z3.IntSort(), z3.IntSort()), eng.fresh_fn(s, 'own', z3.IntSort(), z3.IntSort()))
        off, own = eng.flats[ck]
        k, k2, j = [z3.FreshConst(z3.IntSort(), x) for x in 'khj']
        m = off(n)
        eng.flats[m.get_id()] = (m, off, own, n, ln)
        whole = z3.Implies(z3.And(0 <= k, k < n), z3.And(ln(k) >= 0, off(k) >= 0, off(k) + ln(k) <= m))
        eng.assume(s, off(z3.IntVal(0)) == 0, m >= 0,
                   z3.ForAll([k], whole, patterns=[off(k)]),
                   z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 <= n), z3.And(
                       off(k) + ln(k) <= off(k2), z3.Implies(k2 == k + 1, off(k2) == off(k) + ln(k)))), patterns=[z3.MultiPattern(off(k), off(k2))]),
                   z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(
                       0 <= own(j), own(j) < n, off(own(j)) <= j, j < off(own(j)) + ln(own(j)))), patterns=[own(j)]),
                   z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < n, off(k) <= j, j < off(k) + ln(k)), own(j) == k),
                             patterns=[z3.MultiPattern(off(k), own(j))]))
        trig = index_terms(ln(k), k)
        if trig: eng.assume(s, forall_pat([k], whole, trig[:1]))
        f = lambda t: coerce(subst(F.get(t - off(own(t))), [(i, own(t))]), el)
        if pre.items is not None and not pre.items: r = ListV(m, f, el)
        else:
            pre = eng.snap(s, pre)
            r = ListV(pre.n + m, lambda t: ite(t < pre.n, coerce(pre.get(t), el), f(t - pre.n)), el)
        r.flat_info = (off, own, n)
        return r
    if kind == 'union':
        pre = coerce(eng.snap(s, pre), TSet(ty.k)) if pre.k is not None else SetV(ty.k, lambda q: z3.BoolVal(False))
        D, w = exists_iter(eng, s, ty.k, lambda q, t: z3.substitute(F.dom(q), (i, t)), n)
        return SetV(ty.k, lambda q: z3.Or(pre.dom(q), D(q)))
    if kind in ('inter', 'optand'):
        p0 = eng.snap(s, pre)
        st_ = ty.el if kind == 'optand' else ty
        none = z3.BoolVal(False)
        if kind == 'optand':
            if isinstance(p0, NoneV): none, p0 = z3.BoolVal(True), SetV(st_.k, lambda q: z3.BoolVal(False))
            elif isinstance(p0, OptV): none, p0 = p0.isnone, p0.val
        p0 = coerce(p0, st_) if p0.k is not None else SetV(st_.k, lambda q: z3.BoolVal(False))
        D, w = exists_iter(eng, s, st_.k, lambda q, t: z3.Not(z3.substitute(F.dom(q), (i, t))), n)
        r = SetV(st_.k, lambda q: z3.And(z3.Or(none, p0.dom(q)), z3.Not(D(q))))
        return r if kind == 'inter' else OptV(z3.And(none, n <= 0), r)
    if kind == 'unionset':
        pre = to_dict(eng, s, pre, ty)
        t2 = ty.v
        D, w = exists_iter(eng, s, ty.k, lambda q, t: z3.substitute(F.dom(q), (i, t)), n)
        D2, w2 = exists_iter(eng, s, TTup(ty.k, t2.k), lambda q, t: z3.substitute(pair_dom(F, q.items[0], q.items[1]), (i, t)), n)
        def sets(q):
            q = coerce(q, ty.k)
            pv = pre.val(q)
            return SetV(t2.k, lambda r: z3.Or(z3.And(pre.dom(q), pv.dom(r)), D2(TupV([q, coerce(r, t2.k)]))))
        return DictV(ty.k, ty.v, lambda q: z3.Or(pre.dom(q), D(q)), sets, None, pre.default)
    if kind == 'override':
        p0 = eng.snap(s, pre)
        pre_empty = isinstance(p0, CDictV) and not p0.d or isinstance(p0, DictV) and (p0.k is None or p0.enum is not None and int_value(p0.enum[0]) == 0)
        pre = to_dict(eng, s, pre, ty)
        D, w = exists_iter(eng, s, ty.k, lambda q, t: z3.substitute(F.dom(q), (i, t)), n, last=True)
        enum = None
        if pre_empty:
            # a fresh dictionary filled with one distinct key per iteration lists its keys in this order
            q, cs = keyconst(ty.k)
            sol = solve_key(z3.simplify(F.dom(q)), cs)
            if sol is not None and z3.is_true(z3.simplify(sol[1])):
                t1, t2 = z3.FreshConst(z3.IntSort(), 't'), z3.FreshConst(z3.IntSort(), 't')
                k1, k2 = [[z3.substitute(x, (i, t)) for x in sol[0]] for t in (t1, t2)]
                if eng.check_valid(s, z3.Implies(z3.And(0 <= t1, t1 < n, 0 <= t2, t2 < n, *[a == b for a, b in zip(k1, k2)]), t1 == t2), 3.0) is True:
                    enum = (n, lambda j: unflat(ty.k, [z3.substitute(x, (i, j)) for x in sol[0]]), w)
                    ks1 = [x for x in k1 if mentions_const(x, t1)]
                    trig = [y for x in ks1 for y in index_terms(x, t1)][:1]
                    b = z3.Implies(z3.And(0 <= t1, t1 < n), z3.And(D(unflat(ty.k, k1)), w(unflat(ty.k, k1)) == t1))
                    eng.assume(s, forall_pat([t1], b, trig) if trig else z3.ForAll([t1], b))
        return DictV(ty.k, ty.v, (lambda q: D(q)) if pre_empty else (lambda q: z3.Or(pre.dom(q), D(q))),
                     (lambda q: subst(F.val(q), [(i, w(q))])) if pre_empty else (lambda q: ite(D(q), subst(F.val(q), [(i, w(q))]), pre.val(q))), enum, pre.default)
    if kind == 'override2':
        pre = to_dict(eng, s, pre, ty)
        t2 = ty.v
        D, w = exists_iter(eng, s, ty.k, lambda q, t: z3.substitute(F.dom(q), (i, t)), n)
        kk = TTup(ty.k, t2.k)
        D2, w2 = exists_iter(eng, s, kk, lambda q, t: z3.substitute(z3.And(F.dom(q.items[0]), F.val(q.items[0]).dom(q.items[1])), (i, t)), n, last=True)
        def val2(q):
            q = coerce(q, ty.k)
            pv = pre.val(q)
            inp = lambda r: z3.And(pre.dom(q), pv.dom(r))
            pr = lambda r: TupV([q, coerce(r, t2.k)])
            return DictV(t2.k, t2.v, lambda r: z3.Or(inp(r), D2(pr(r))),
                         lambda r: ite(D2(pr(r)), subst(F.val(q).val(r), [(i, w2(pr(r)))]), pv.val(r)), None, t2.default)
        return DictV(ty.k, ty.v, lambda q: z3.Or(pre.dom(q), D(q)), val2, None, pre.default)
    if kind == 'dconcat':
        pre = to_dict(eng, s, pre, ty)
        k, cs = keyconst(ty.k)
        el = ty.v.el
        cl = closed_iter(F.dom(k), cs, i, n)
        if cl is not None:
            at = lambda e: (lambda q: z3.substitute(e, *zip(cs, flat(coerce(q, ty.k)))))
            D, w = at(cl[0]), at(cl[2])
            cnt = lambda q: z3.If(D(q), z3.IntVal(1), z3.IntVal(0))
            pos = lambda q, j: w(q)
        else:
            ks = flat_sorts(ty.k)
            Int = z3.IntSort()
            c, po, inv = eng.fresh_fn(s, 'cnt', *(ks + [Int])), eng.fresh_fn(s, 'pos', *(ks + [Int, Int])), eng.fresh_fn(s, 'inv', *(ks + [Int, Int]))
            ff = lambda q: flat(coerce(q, ty.k))
            cnt, pos = lambda q: c(*ff(q)), lambda q, j: po(*(ff(q) + [j]))
            D = lambda q: cnt(q) > 0
            j, j2, t = [z3.FreshConst(Int, x) for x in 'jht']
            dom = lambda t: z3.substitute(F.dom(k), (i, t))
            p = lambda x: po(*(cs + [x]))
            iv_ = lambda t: inv(*(cs + [t]))
            eng.assume(s, z3.ForAll(cs, z3.And(0 <= c(*cs), c(*cs) <= n), patterns=[c(*cs)]),
                       z3.ForAll(cs + [j], z3.Implies(z3.And(0 <= j, j < c(*cs)), z3.And(0 <= p(j), p(j) < n, dom(p(j)), iv_(p(j)) == j)), patterns=[p(j)]),
                       z3.ForAll(cs + [j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < c(*cs)), p(j) < p(j2)), patterns=[z3.MultiPattern(p(j), p(j2))]))
            body = z3.Implies(z3.And(0 <= t, t < n, dom(t)), z3.And(0 <= iv_(t), iv_(t) < c(*cs), p(iv_(t)) == t))
            eng.assume(s, z3.ForAll(cs + [t], body, patterns=[iv_(t)]))
            trig = [x for x in index_terms(dom(t), t) if all(mentions_const(x, y) for y in cs)]
            if trig: eng.assume(s, z3.ForAll(cs + [t], body, patterns=trig[:1]))
        item = lambda q, j: coerce(subst(F.val(q).get(z3.IntVal(0)), [(i, pos(q, j))]), el)
        def lst(q):
            pv = pre.val(q)
            m = z3.If(pre.dom(q), pv.n, z3.IntVal(0)) if not tr(z3.Not(pre.dom(q))) else z3.IntVal(0)
            return ListV(m + cnt(q), (lambda j: item(q, j)) if z3.is_int_value(m) else (lambda j: ite(j < m, coerce(pv.get(j), el), item(q, j - m))), el)
        return DictV(ty.k, ty.v, lambda q: z3.Or(pre.dom(q), D(q)), lst, None, pre.default)
    if kind == 'additive':
        pre = to_dict(eng, s, pre, ty)
        k, cs = keyconst(ty.k)
        if z3.is_false(z3.simplify(F.dom(k))): D = lambda q: z3.BoolVal(False)
        else: D, w = exists_iter(eng, s, ty.k, lambda q, t: z3.substitute(F.dom(q), (i, t)), n)
        if isinstance(ty.v, TPrim):
            z = z3.IntVal(0) if ty.v == INT else z3.RealVal(0)
            Sm = prefix_sum(eng, s, z3.If(F.dom(k), F.val(k).t, z), i, cs, n)
            return DictV(ty.k, ty.v, lambda q: z3.Or(pre.dom(q), D(q)),
                         lambda q: P(ty.v, z3.If(pre.dom(q), pre.val(q).t, z) + Sm(flat(coerce(q, ty.k)))), None, pre.default)
        t2 = ty.v
        z = z3.IntVal(0) if t2.v == INT else z3.RealVal(0)
        k2, cs2 = keyconst(t2.k)
        kk = TTup(ty.k, t2.k)
        D2, w2 = exists_iter(eng, s, kk, lambda q, t: z3.substitute(pair_dom(F, q.items[0], q.items[1]), (i, t)), n)
        Sm = prefix_sum(eng, s, z3.If(pair_dom(F, k, k2), F.val(k).val(k2).t, z), i, cs + cs2, n)
        def val(q):
            q = coerce(q, ty.k)
            pv = pre.val(q)
            inp = lambda r: z3.And(pre.dom(q), pv.dom(r))
            return DictV(t2.k, t2.v, lambda r: z3.Or(inp(r), D2(TupV([q, coerce(r, t2.k)]))),
                         lambda r: P(t2.v, z3.If(inp(r), pv.val(r).t, z) + Sm(flat(q) + flat(coerce(r, t2.k)))), None, t2.default)
        return DictV(ty.k, ty.v, lambda q: z3.Or(pre.dom(q), D(q)), val, None, pre.default)
    h2 = eng.methods.get(('arr', 'loop_combine'))
    if h2: return h2(eng, s, kind, F, pre, i, n, ty)
    raise Unsupported('combine %s' % kind)


def to_dict(eng, s, pre, ty):
    pre = eng.snap(s, pre)
    if isinstance(pre, CDictV):
        d = cdict_to_dict(pre, ty) if pre.d else empty_dict(ty.k, ty.v)
        d.default = pre.default
        return d
    if pre.k is None:
        d = empty_dict(ty.k, ty.v); d.default = pre.default
        return d
    r = coerce(pre, ty)
    return r


def closed_iter(dt, cs, t, n):
    """exists t<n. dt, where dt says that a key constant is the t-th key of a container with n keys: (condition, t)"""
    conj = []
    def add(x):
        if z3.is_and(x):
            for y in x.children(): add(y)
        else: conj.append(x)
    add(z3.simplify(dt))
    for x in conj:
        if not z3.is_eq(x): continue
        for p, q in (x.children(), x.children()[::-1]):
            if not any(p.eq(c) for c in cs) or not z3.is_app(q) or not q.num_args(): continue
            info = V.ENUMKEY.get(q.decl().name())
            a = q.children()
            if info is None or not a[-1].eq(t) or any(mentions_const(y, t) for y in a[:-1]) or any(mentions_const(y, p) for y in a): continue
            size, dom, idx = info(a[:-1])
            if not z3.simplify(size).eq(z3.simplify(n)): continue
            rest = z3.And(*[y for y in conj if y is not x]) if len(conj) > 1 else z3.BoolVal(True)
            fix = lambda e: z3.substitute(z3.substitute(e, (q, p)), (t, idx(p)))
            return z3.And(dom(p), fix(rest)), fix, idx(p)
    return None


def exists_iter(eng, s, kty, dom, n, last=False):
    """predicate D(k) <-> exists t<n. dom(k,t), with a witness function (the last such t if asked)"""
    ks = flat_sorts(kty)
    k, cs = keyconst(kty)
    t = z3.FreshConst(z3.IntSort(), 't')
    cl = closed_iter(dom(k, t), cs, t, n)
    if cl is not None:
        at = lambda e: (lambda q: z3.substitute(e, *zip(cs, flat(coerce(q, kty)))))
        return at(cl[0]), at(cl[2])
    # the same predicate on two paths is one function
    if not hasattr(eng, 'flats'): eng.flats = {}
    canon = [(c, z3.Const('ei!k%d' % x, c.sort())) for x, c in enumerate(cs)] + [(t, z3.Int('ei!t'))]
    ck = ('exists', z3.simplify(z3.substitute(dom(k, t), *canon)).sexpr(), n.sexpr(), tuple(c.sexpr() for c in s.ctx), bool(last), tuple(x.sexpr() for x in ks))
    if ck not in eng.flats:
        eng.flats[ck] = (eng.fresh_fn(s, 'D', *(ks + [z3.BoolSort()])), eng.fresh_fn(s, 'W', *(ks + [z3.IntSort()])))
    D, w = eng.flats[ck]
    eng.assume(s, z3.ForAll(cs, z3.Implies(D(*cs), z3.And(0 <= w(*cs), w(*cs) < n, dom(k, w(*cs)))), patterns=[D(*cs)]))
    # dom is often (k == key(t)): then instantiate with k := key(t)
    dt = z3.simplify(dom(k, t))
    key_of = solve_key(dt, cs)
    concl = lambda kk: z3.And(D(*kk), w(*kk) >= t) if last else D(*kk)
    if key_of is not None:
        kk, rest = key_of
        body = z3.Implies(z3.And(0 <= t, t < n, rest), concl(kk))
        trig = [x for x in kk if z3.is_app(x) and x.num_args() and mentions_const(x, t) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        if not trig:
            for x in kk: trig += index_terms(x, t)
        if not trig: trig = index_terms(rest, t)
        if len(trig) > 1 and any(mentions_const(trig[0], t) for _ in [0]): trig = trig[:1] if len(kk) == 1 else trig
        eng.assume(s, forall_pat([t], body, trig) if trig else z3.ForAll([t], body))
    else:
        body = z3.Implies(z3.And(0 <= t, t < n, dom(k, t)), concl(cs))
        eng.assume(s, z3.ForAll(cs + [t], body))
        if getattr(eng, 'hint', None) is not None:
            if not s.ctx: eng.assume(s, z3.ForAll(cs + [t], body, patterns=[z3.MultiPattern(D(*cs), eng.hint(t))]),
                       z3.ForAll(cs, z3.Implies(D(*cs), eng.seen(w(*cs))), patterns=[D(*cs)]))
            trig = [x for x in index_terms(dt, t) if not any(mentions_const(x, c) for c in cs)]
            if trig: eng.assume(s, z3.ForAll(cs + [t], body, patterns=[z3.MultiPattern(D(*cs), x) for x in trig]))
    fl = getattr(eng, 'flats', {}).get(n.get_id())
    if fl is not None and key_of is not None:
        _, off, own, nn, ln = fl
        a, e = z3.FreshConst(z3.IntSort(), 'fa'), z3.FreshConst(z3.IntSort(), 'fe')
        sub = lambda x: z3.simplify(z3.substitute(z3.substitute(x, (own(t), a)), (t, off(a) + e)))
        kk, rest = key_of
        kk, rest = [sub(x) for x in kk], sub(rest)
        body = z3.Implies(z3.And(0 <= a, a < nn, 0 <= e, e < ln(a), rest), z3.And(own(off(a) + e) == a, D(*kk), *([w(*kk) >= off(a) + e] if last else [])))
        trig = []
        for x in kk: trig += [y for y in index_terms(x, e) if mentions_const(y, a)] or index_terms(x, a)
        trig = [x for x in trig if not any(x.eq(y) for y in trig[:trig.index(x)])] if len(trig) > 1 else trig
        both = [x for x in trig if mentions_const(x, a) and mentions_const(x, e)]
        eng.assume(s, forall_pat([a, e], body, both[:1] or trig) if trig else z3.ForAll([a, e], body))
    return (lambda q: D(*flat(coerce(q, kty)))), (lambda q: w(*flat(coerce(q, kty))))


def solve_key(f, cs):
    """if f is a conjunction containing (c == term) for every key constant c, return ([terms], remaining)"""
    conj = []
    def add(x):
        if z3.is_and(x):
            for y in x.children(): add(y)
        else: conj.append(x)
    add(f)
    sol = {}
    rest = []
    for x in conj:
        hit = False
        if z3.is_eq(x):
            a, b = x.children()
            for p, q in ((a, b), (b, a)):
                for c in cs:
                    if p.eq(c) and not any(mentions_const(q, d) for d in cs) and c.get_id() not in sol:
                        sol[c.get_id()] = q; hit = True; break
                if hit: break
        if not hit: rest.append(x)
    if len(sol) != len(cs): return None
    r = z3.And(*rest) if rest else z3.BoolVal(True)
    r = z3.substitute(r, *[(c, sol[c.get_id()]) for c in cs])
    return [sol[c.get_id()] for c in cs], r


def shifted(a, k):
    return z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and mentions_const(a, k) and \
        not mentions_const(z3.simplify(a - k), k)


def index_terms(t, k):
    """smallest uninterpreted applications in t that mention the constant k directly"""
    out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(k) or shifted(a, k) for a in x.children()):
                out.append(x)
            stack.extend(x.children())
    return out


def elem_terms(v, k):
    """index terms of the scalar parts of a value"""
    if isinstance(v, P): return index_terms(v.t, k)
    if isinstance(v, TupV): return [y for x in v.items for y in elem_terms(x, k)]
    if isinstance(v, OptV): return elem_terms(v.val, k)
    if isinstance(v, ObjV): return [y for x in v.fields.values() for y in elem_terms(x, k)]
    if isinstance(v, ListV): return index_terms(v.n, k)
    return []


def index_terms_sv(v, k):
    try:
        return [y for x in flat(v) for y in index_terms(x, k)]
    except Unsupported:
        return []


# --------------------------------------------------------------------------------------------- invariants
class LoopView(object):
    """what an invariant may talk about"""
    def __init__(self, eng, st, st0, i, n, iv):
        self.eng, self.st, self.st0, self.i, self.n, self.iv = eng, st, st0, i, n, iv
    def var(self, name): return self.eng.val(self.st, self.st.env[name])
    def snap(self, name): return self.eng.snap(self.st, self.st.env[name])
    def pre(self, name): return self.eng.snap(self.st0, self.st0.env[name])
    def has(self, name): return name in self.st.env and not isinstance(self.st.env[name], Poison)
    def elem(self, j):
        try: return self.iv.get(j, self.st)
        except TypeError: return self.iv.get(j)
    def read(self, sv): return self.eng.snap(self.st, sv)
    def read0(self, sv): return self.eng.snap(self.st0, sv)


def reach(st, roots):
    """the cells reachable from some values"""
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, Sub): todo.append(v.base)
        elif isinstance(v, Ref):
            if v.cell in seen: continue
            seen.add(v.cell)
            todo.append(st.heap.get(v.cell))
        elif isinstance(v, Redirect): todo.append(v.to)
        elif isinstance(v, TupV): todo += v.items
        elif isinstance(v, ListV) and v.items is not None: todo += v.items
        elif isinstance(v, CDictV): todo += list(v.d.values())
        elif isinstance(v, OptV): todo.append(v.val)
        elif isinstance(v, ObjV): todo += list(v.fields.values())
        elif isinstance(v, ConcV): todo += [x for x in (getattr(v, 'recv', None),) if isinstance(x, SV)] + \
            [x for x in (getattr(v, 'env', None) or {}).values() if isinstance(x, SV)]
    return seen


def own_cells(st, name):
    """cells of the object a variable refers to, when nothing else refers into it (else None)"""
    mine = reach(st, [st.env[name]])
    rest = [v for k, v in st.env.items() if k != name] + [v for c, v in st.heap.items() if c not in mine] + \
        [v for v in st.ghost.values() if isinstance(v, SV)]
    return None if reach(st, [x for x in rest if isinstance(x, (SV, Redirect))]) & mine else mine


def deque_limits(eng, st, v, path=()):
    """{path: maxlen} of the bounded deques inside an object"""
    out = {}
    if isinstance(v, (Ref, Sub)):
        c = eng.cell_of(st, v)
        if c in eng.maxlen: out[path] = (c, eng.maxlen[c])
        v = eng.val(st, v)
    if isinstance(v, ObjV):
        for f, x in v.fields.items(): out.update(deque_limits(eng, st, x, path + (f,)))
    return out


def havoc_types(eng, st, s, types):
    """arbitrary values of the given types for the changed locations"""
    for l, ty in types.items():
        if l[0] == 'new': s.env.pop(l[1], None); continue
        if ty is None: set_locus(s, l, Poison('loop')); continue
        pre = get_locus(st, l)
        v = eng.fresh(s, ty, 'h')
        if isinstance(v, DictV) and getattr(pre, 'default', None) is not None: v.default = pre.default
        if l[0] != 'cell': v = eng.box_obj(s, v)
        set_locus(s, l, v)
        if isinstance(pre, Ref):
            old, new = deque_limits(eng, st, pre), {}
            def cells(x, path=()):
                if isinstance(x, Ref):
                    new[path] = x.cell
                    y = s.heap[x.cell]
                    if isinstance(y, ObjV):
                        for f, z in y.fields.items(): cells(z, path + (f,))
            cells(v)
            for pth, (_, m) in old.items(): eng.maxlen[new[pth]] = m


def cut_run(eng, st, iv, body, i, n, types, inv_types, assume):
    """the body from an arbitrary state that satisfies the invariants; types grows until it covers what changes"""
    keep = len(eng.obligs)
    for rnd in range(6):
        del eng.obligs[keep:]
        s = st.fork()
        s.pc = s.pc + (z3.And(0 <= i, i < n),)
        havoc_types(eng, st, s, types)
        base = s.fork()
        if rnd > 0 or types:
            for f in assume(LoopView(eng, s, st, i, n, iv)): eng.assume(s, f)
        outs = body(s, get_elem(eng, s, iv, i))
        outs = [((('next',) if oc[0] == 'continue' else oc), x) for oc, x in outs]
        ch = loci_changed(eng, base, outs, None)
        grew = False
        for l in ch:
            if l[0] == 'new':
                if l not in types: types[l] = None
                continue
            if l[0] == 'cell' and l[1] not in st.heap: continue          # an object of the iteration itself
            if l[0] == 'field' and l[1] not in st.heap: continue
            ty = types.get(l)
            new = ty
            if l[0] == 'var' and l[1] in inv_types: new = inv_types[l[1]]
            else:
                try:
                    new = join_ty(new, content_type(eng, st, get_locus(st, l)))
                    for oc, x in outs: new = join_ty(new, content_type(eng, x, get_locus(x, l)))
                except Unsupported as e:
                    if os.environ.get('PYDV_DEBUG'): print('  cut: %s poisoned: %s' % (l, e))
                    new = None
            if l not in types or types[l] != new:
                types[l] = new; grew = True
            if new is not None and l[0] != 'cell' and isinstance(get_locus(st, l), (Ref, Sub)):
                # a variable that is rebound to another object: nothing else may refer to these objects
                lim = {p: m for p, (c, m) in deque_limits(eng, st, get_locus(st, l)).items()}
                if l[0] != 'var': raise Unsupported('attribute %s rebound to another object in a loop' % (l[2],))
                for x in [st] + [x for oc, x in outs if oc[0] == 'next']:
                    if own_cells(x, l[1]) is None: raise Unsupported('the object of %s is shared and changes in a loop' % l[1])
                    lx = {p: m for p, (c, m) in deque_limits(eng, x, get_locus(x, l)).items()}
                    if set(lx) != set(lim) or not all(lx[p].eq(lim[p]) for p in lim): raise Unsupported('deque limits change in a loop')
        if not grew and (rnd > 0 or not ch): return base, outs
    raise Unsupported('loop state does not stabilise')


def cut_loop(eng, st, iv, body, inv, node, types=None):
    i = eng.fresh_fn(st, 'it', z3.IntSort())()
    n = iv.n
    types = {} if types is None else types
    base, outs = cut_run(eng, st, iv, body, i, n, types, inv.types, lambda L: [f for lab, f in inv.f(L)])
    # entry
    for lab, f in inv.f(LoopView(eng, st, st, z3.IntVal(0), n, iv)):
        eng.oblige(st, 'loop invariant on entry: ' + lab, f)
    results = []
    for oc, s2 in outs:
        if oc[0] == 'next':
            for lab, f in inv.f(LoopView(eng, s2, st, i + 1, n, iv)):
                eng.oblige(s2, 'loop invariant preserved: ' + lab, f)
        else: results.append((oc, s2))
    # after
    s = st.fork()
    havoc_types(eng, st, s, types)
    for l in types:
        if l[0] == 'new': s.env[l[1]] = Poison('loop variable')
    for lab, f in inv.f(LoopView(eng, s, st, n, n, iv)): eng.assume(s, f)
    results.append((('exhausted',), s))
    return results


def auto_cut(eng, st, iv, body, node):
    """a loop without an invariant of its own: the largest subset of the candidate invariants (the engine's generic ones and
    counters in step with the iteration number) that holds on entry and is preserved; each is then an obligation like any other"""
    i = eng.fresh_fn(st, 'it', z3.IntSort())()
    n = iv.n
    types, dead = {}, set()
    muted = eng.mute; eng.mute = True
    try:
        cand = [('%s' % lab, f) for lab, f in eng.generic]
        def counters(L):
            out = []
            for l, ty in types.items():
                if ty != INT: continue
                v, v0 = get_locus(L.st, l), get_locus(L.st0, l)
                if isinstance(v, P) and isinstance(v0, P) and v.ty == INT and v0.ty == INT:
                    out.append(('%s counts the iterations' % (l[-1],), v.t - v0.t == L.i))
            return out
        def all_cands(L):
            out = []
            for lab, f in cand:
                if lab in dead: continue
                try: g = f(L)
                except (KeyError, AttributeError): g = None
                if isinstance(g, list): out += [('%s: %s' % (lab, x), y) for x, y in g]
                elif g is not None: out.append((lab, g))
            return [(lab, g) for lab, g in out + counters(L) if lab not in dead]
        for lab, g in all_cands(LoopView(eng, st, st, z3.IntVal(0), n, iv)):
            if eng.check_valid(st, g, 3.0) is not True: dead.add(lab)
        for rnd in range(12):
            base, outs = cut_run(eng, st, iv, body, i, n, types, {}, lambda L: [g for _, g in all_cands(L)])
            bad = set()
            for oc, s2 in outs:
                if oc[0] != 'next': continue
                for lab, g in all_cands(LoopView(eng, s2, st, i + 1, n, iv)):
                    if lab not in bad and eng.check_valid(s2, g, 3.0) is not True: bad.add(lab)
            if not bad: break
            dead |= bad
        else: raise Unsupported('loop invariants do not stabilise')
    finally: eng.mute = muted
    return cut_loop(eng, st, iv, body, LoopInv(all_cands), node, types)


def summarise_or_cut(eng, st, iv, body, node):
    keep = len(eng.obligs)
    try:
        return summarise(eng, st.fork(), iv, body, node, True)
    except Unsupported:
        del eng.obligs[keep:]
        return auto_cut(eng, st, iv, body, node)


def counting_loop(eng, n, st):
    """`while cond(i): i += 1` stops at the first i from where it stands with not cond(i)"""
    if n.orelse or len(n.body) != 1: return None
    b = n.body[0]
    one = lambda x: isinstance(x, ast.Constant) and x.value == 1 and not isinstance(x.value, bool)
    if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and one(b.value): name = b.target.id
    elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.BinOp) \
            and isinstance(b.value.op, ast.Add) and isinstance(b.value.left, ast.Name) and b.value.left.id == b.targets[0].id and one(b.value.right): name = b.targets[0].id
    else: return None
    i0 = eng.val(st, st.env.get(name)) if name in st.env else None
    if not isinstance(i0, P) or i0.ty != INT or z3.is_int_value(z3.simplify(i0.t)) and concrete_test(eng, n, st): return None
    k = z3.FreshConst(z3.IntSort(), 'k')
    s0 = st.fork()
    s0.ctx = st.ctx + (k,)
    s0.env[name] = P(INT, k)
    eng.assume(s0, i0.t <= k)
    nf = len(s0.facts)
    conds = []
    for s1, v in eng.ev(n.test, s0):
        if isinstance(v, Exc):
            if eng.feasible(s1): return None
            continue
        for s2, t in eng.truth_split(s1, v):
            if isinstance(t, Exc) or len(s2.facts) != nf or any(s2.heap.get(c) is not h for c, h in st.heap.items()): return None
            if t: conds.append(z3.And(*s2.pc[len(s0.pc):]) if len(s2.pc) > len(s0.pc) else z3.BoolVal(True))
    cond = z3.simplify(z3.Or(*conds)) if conds else z3.BoolVal(False)
    s = st.fork()
    m, t = eng.fresh_fn(s, 'stop', z3.IntSort())(), z3.FreshConst(z3.IntSort(), 't')
    at = lambda x: z3.substitute(cond, (k, x))
    trig = index_terms(at(t), t)
    body = z3.Implies(z3.And(i0.t <= t, t < m), at(t))
    eng.assume(s, i0.t <= m, z3.Not(at(m)), z3.Implies(i0.t < m, at(m - 1)),
               z3.ForAll([t], body, patterns=trig[:1]) if trig else z3.ForAll([t], body))
    s.env[name] = P(INT, m)
    return [(('next',), s)]


def concrete_test(eng, n, st):
    """the test is decided where the loop starts (then unrolling goes on)"""
    for s1, v in eng.ev(n.test, st.fork()):
        v = eng.val(s1, v) if not isinstance(v, Exc) else v
        if isinstance(v, P) and v.ty == BOOL and (z3.is_true(z3.simplify(v.t)) or z3.is_false(z3.simplify(v.t))): continue
        return False
    return True


def while_loop(eng, n, st):
    inv = eng.loop_inv(n, st)
    if inv is None and not eng.generic:
        r = counting_loop(eng, n, st)
        if r is not None: return r
        # unrolling of loops that end concretely
        live, out = [st], []
        for k in range(40):
            nx = []
            for s in live:
                for s1, v in eng.ev(n.test, s):
                    if isinstance(v, Exc): out.append((('raise', v), s1)); continue
                    for s2, b in eng.truth_split(s1, v):
                        if isinstance(b, Exc): out.append((('raise', b), s2)); continue
                        if not b:
                            out += eng.exec_block(n.orelse, s2) if n.orelse else [(('next',), s2)]
                            continue
                        for oc, s3 in eng.exec_block(n.body, s2):
                            if oc[0] in ('next', 'continue'): nx.append(s3)
                            elif oc[0] == 'break': out.append((('next',), s3))
                            else: out.append((oc, s3))
            live = nx
            if not live: return out
            if len(live) > 8: break
        raise Unsupported('while loop without invariant')
    i = eng.fresh_fn(st, 'it', z3.IntSort())()
    def body(s, _):
        out = []
        for s1, v in eng.ev(n.test, s):
            if isinstance(v, Exc): out.append((('raise', v), s1)); continue
            for s2, b in eng.truth_split(s1, v):
                if not b: out.append((('whileend',), s2))
                else: out += eng.exec_block(n.body, s2)
        return out
    big = eng.fresh_fn(st, 'nit', z3.IntSort())()
    iv = IterView(big, lambda j: NONEV)
    outs = cut_loop(eng, st, iv, body, inv, n) if inv is not None else auto_cut(eng, st, iv, body, n)
    res = []
    for oc, s in outs:
        if oc[0] == 'exhausted': continue
        if oc[0] == 'whileend': res += eng.exec_block(n.orelse, s) if n.orelse else [(('next',), s)]
        elif oc[0] == 'break': res.append((('next',), s))
        else: res.append((oc, s))
    return res
