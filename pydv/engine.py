"""Symbolic executor / VC generator for the Python subset used by nephosem.

The functions executed are the ASTs of /repo's current files, taken on every run.  See DESIGN.md for the subset and
for what the encoding assumes (mathematical ints, floats as reals, uninterpreted strings, dependency contracts in lib).
"""
import ast
import os
import time
import warnings
import z3
warnings.simplefilter("ignore")
from .values import *
from . import values as V

REPO = os.environ.get('PYDV_REPO', '/repo')


class Repo(object):
    """source of the package, re-read on every run"""
    def __init__(self, root=REPO):
        self.root = root
        self.mods = {}
        self.src = {}
        for d, dn, fn in os.walk(os.path.join(root, 'nephosem')):
            if 'tests' in d.split(os.sep): continue
            for f in fn:
                if not f.endswith('.py') or f.count('.') > 1: continue
                p = os.path.join(d, f)
                m = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if m.endswith('.__init__'): m = m[:-9]
                try:
                    src = open(p, encoding='utf-8').read()
                    self.mods[m] = ast.parse(src)
                    self.src[m] = src
                except SyntaxError:
                    self.mods[m] = None
        self._names = {}

    def names(self, mod):
        if mod in self._names: return self._names[mod]
        self._open = getattr(self, '_open', 0) + 1
        try: tbl = self._names1(mod)
        finally: self._open -= 1
        if not self._open:                   # names imported in a circle are known now
            for m, t in self._names.items():
                for k, e in t.items():
                    if e[0] == 'ext' and '.' in e[1]:
                        base, nm = e[1].rsplit('.', 1)
                        if nm in self._names.get(base, {}): t[k] = self._names[base][nm]
        return tbl

    def _names1(self, mod):
        tbl = {}
        self._names[mod] = tbl
        tree = self.mods.get(mod)
        if tree is None: return tbl
        is_pkg = os.path.isdir(os.path.join(self.root, mod.replace('.', os.sep)))
        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.FunctionDef): tbl[s.name] = ('func', mod, s)
                elif isinstance(s, ast.ClassDef): tbl[s.name] = ('class', mod, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name): tbl[t.id] = ('const', mod, s.value)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname: tbl[a.asname] = self._mod(a.name)
                        else: tbl[a.name.split('.')[0]] = self._mod(a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        parts = mod.split('.')
                        if not is_pkg: parts = parts[:-1]
                        parts = parts[:len(parts) - (s.level - 1)]
                        base = '.'.join(parts + ([s.module] if s.module else []))
                    for a in s.names:
                        if a.name == '*':
                            if base in self.mods: tbl.update({k: v for k, v in self.names(base).items()})
                        elif base in self.mods and a.name in self.names(base):
                            tbl[a.asname or a.name] = self.names(base)[a.name]
                        elif base + '.' + a.name in self.mods:
                            tbl[a.asname or a.name] = ('mod', base + '.' + a.name)
                        else:
                            tbl[a.asname or a.name] = ('ext', base + '.' + a.name)
                elif isinstance(s, ast.If): visit(s.body); visit(s.orelse)
                elif isinstance(s, ast.Try): visit(s.body); [visit(h.body) for h in s.handlers]
        visit(tree.body)
        return tbl

    def _mod(self, name):
        return ('mod', name) if name in self.mods else ('ext', name)

    def cls(self, qual):
        mod, name = qual.split(':')
        e = self.names(mod).get(name)
        return e if e and e[0] == 'class' else None

    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            c = self.cls(q)
            if c is None or q in out: continue
            out.append('%s:%s' % (c[1], c[2].name))
            for b in c[2].bases:
                if isinstance(b, ast.Name):
                    e = self.names(c[1]).get(b.id)
                    if e and e[0] == 'class': todo.append('%s:%s' % (e[1], e[2].name))
        return out

    def lookup_attr(self, qual, name):
        for q in self.mro(qual):
            c = self.cls(q)
            found = None
            for s in c[2].body:
                if isinstance(s, ast.FunctionDef) and s.name == name: found = ('func', c[1], s, q)
                elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    found = ('const', c[1], s.value, q)
            if found: return found
        return None

    def func(self, spec):
        """'mod:func' or 'mod:Class.meth' -> (mod, node, classqual or None)"""
        mod, nm = spec.split(':')
        if '.' in nm:
            c, m = nm.split('.')
            e = self.lookup_attr('%s:%s' % (mod, c), m)
            if e is None or e[0] != 'func': raise Unsupported('function %s not found' % spec)
            return e[1], e[2], e[3]
        e = self.names(mod).get(nm)
        if e is None or e[0] != 'func': raise Unsupported('function %s not found' % spec)
        return e[1], e[2], None


class St(object):
    __slots__ = ('env', 'heap', 'pc', 'facts', 'ctx', 'over', 'ghost', 'frame', 'nf0')
    def __init__(self):
        self.env, self.heap, self.pc, self.facts, self.ctx, self.over, self.ghost = {}, {}, (), (), (), {}, {}
        self.frame = None
    def fork(self):
        s = St()
        s.env, s.heap, s.pc, s.facts, s.ctx = dict(self.env), dict(self.heap), self.pc, self.facts, self.ctx
        s.over, s.ghost, s.frame = dict(self.over), dict(self.ghost), self.frame
        return s


class Redirect(SV):
    def __init__(self, to, shared=False): self.to, self.shared = to, shared


class Frame(object):
    def __init__(self, mod, node, cls, depth): self.mod, self.node, self.cls, self.depth = mod, node, cls, depth
    @property
    def qual(self): return '%s:%s%s' % (self.mod, (self.cls.split(':')[1] + '.') if self.cls else '', self.node.name)


class IterView(object):
    def __init__(self, n, get, items=None, facts=()):
        self.n, self.get, self.items = n, get, items


MUT = (ListV, DictV, CDictV, SetV, ObjV, ArrV)
EXC_PARENTS = {'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
               'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'StopIteration': ['Exception'],
               'NotImplementedError': ['RuntimeError', 'Exception'], 'UnicodeDecodeError': ['ValueError', 'Exception'],
               'FileNotFoundError': ['OSError', 'IOError', 'Exception']}


class SumDef(object):
    """prefix sum S(params, m) = sum_{i<m} f(params, i)"""
    def __init__(self, params, i, summand, sort):
        self.params, self.i, self.summand, self.sort = list(params), i, summand, sort
        self.fn = z3.Function('sum!%d' % uid(), *([p.sort() for p in self.params] + [z3.IntSort(), sort]))
    def at(self, args, m): return self.fn(*(list(args) + [m]))
    def f(self, args, i):
        return z3.substitute(self.summand, *([(p, a) for p, a in zip(self.params, args)] + [(self.i, i)]))


def nonneg(t):
    """syntactically non-negative summand (a count)"""
    if z3.is_int_value(t) or z3.is_rational_value(t): return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return nonneg(t.arg(1)) and nonneg(t.arg(2))
    return False


def trigger_of(t, i):
    """an uninterpreted application in t that contains the variable i as an argument"""
    todo, best = [t], None
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(i) for c in x.children()): return x
            todo += x.children()
    return best


def tr(t):
    return z3.is_true(z3.simplify(t))


def fl(t):
    return z3.is_false(z3.simplify(t))


EFFORT = [1.0]


def limit(solver, secs):
    """about secs of solving on an idle machine, counted in solver steps: the answer does not depend on the load; the
    wall-clock limit is for loops of the solver that count no steps"""
    solver.set('rlimit', int(secs * EFFORT[0] * 2500000))
    solver.set('timeout', int(secs * EFFORT[0] * 5000) + 1500)


class Engine(object):
    MAXDEPTH = 25

    def __init__(self, repo=None, timeout=10.0):
        self.repo = repo or Repo()
        self.timeout = timeout
        self.axioms = []          # closed z3 formulas
        self.sums = []
        self.maxlen = {}          # cell of a bounded deque -> its length limit
        self.generic = []         # candidate loop invariants tried on every loop without one of its own
        self.callees = {}         # qual -> handler(eng, st, args, kwargs) -> [(st, sv)]   (contracts)
        self.ext = {}             # dotted path -> handler
        self.methods = {}         # (kind, name) -> handler(eng, st, recv, args, kwargs)
        self.by_invariant = set()  # heap cells (ghost state of a contract) whose loops are decided by invariants only
        self.attrs = {}           # (TU name, attr) -> handler(eng, st, sv)
        self.invs = {}            # (qual, ordinal) -> LoopInv
        self.inlined = set()
        self.used_ext = set()
        self.assumptions = set()
        self.obligs = []
        self.mute = False         # trial runs of loop bodies state no obligations
        self.frames = []
        self.qcount = 0
        self.qtime = 0.0
        self.paths = 0
        self.allow_div0 = False
        self.deadline = None
        V.AXIOMS[:] = []
        self._mk_string_theory()
        from . import lib
        lib.install(self)

    # ------------------------------------------------------------------ strings
    def _mk_string_theory(self):
        s = StrSort
        self.str_lt = z3.Function('str_lt', s, s, z3.BoolSort())
        self.cat = z3.Function('str_cat', s, s, s)
        self.strlen = z3.Function('str_len', s, z3.IntSort())
        a, b, c = z3.Consts('a b c', s)
        self.str_axioms = [
            z3.ForAll([a], z3.Not(self.str_lt(a, a)), patterns=[self.str_lt(a, a)]),
            z3.ForAll([a, b, c], z3.Implies(z3.And(self.str_lt(a, b), self.str_lt(b, c)), self.str_lt(a, c)),
                      patterns=[z3.MultiPattern(self.str_lt(a, b), self.str_lt(b, c))]),
            z3.ForAll([a, b], z3.Or(self.str_lt(a, b), self.str_lt(b, a), a == b), patterns=[self.str_lt(a, b)]),
            z3.ForAll([a, b], z3.Not(z3.And(self.str_lt(a, b), self.str_lt(b, a))), patterns=[self.str_lt(a, b)]),
            z3.ForAll([a], self.strlen(a) >= 0, patterns=[self.strlen(a)]),
            z3.ForAll([a], (self.strlen(a) == 0) == (a == strlit('')), patterns=[self.strlen(a)]),
        ]
        self.ufs = {}
        self.dyn_classes = set()     # classes whose attributes get computed names

    def uf(self, name, *sorts):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *sorts) if len(sorts) > 1 else z3.Const(name, sorts[0])
        return self.ufs[name]

    def concat(self, parts):
        """normalised concatenation of Str terms / python strings"""
        seq = []
        def add(p):
            if isinstance(p, str): p = strlit(p)
            if z3.is_app(p) and p.decl().eq(self.cat):
                add(p.arg(0)); add(p.arg(1)); return
            v = str_value(p)
            if v == '': return
            if v is not None and seq and str_value(seq[-1]) is not None:
                seq[-1] = strlit(str_value(seq[-1]) + v)
            else: seq.append(p)
        for p in parts: add(p)
        if not seq: return strlit('')
        r = seq[-1]
        for p in reversed(seq[:-1]): r = self.cat(p, r)
        return r

    # ------------------------------------------------------------------ solver
    def theory(self):
        ax = list(self.axioms) + list(V.AXIOMS) + list(self.str_axioms)
        lits = list(STRLIT.values())
        if len(lits) > 1: ax.append(z3.Distinct(*lits))
        for i, a in enumerate(list(STRLIT)):
            for b in list(STRLIT)[i + 1:]:
                ax.append(self.str_lt(STRLIT[a], STRLIT[b]) if a < b else self.str_lt(STRLIT[b], STRLIT[a]))
        ax += self.sum_axioms()
        return ax

    def sum_axioms(self):
        out = []
        for k, a in enumerate(self.sums):
            pa = [z3.FreshConst(p.sort(), 'p') for p in a.params]
            zero = z3.RealVal(0) if a.sort == z3.RealSort() else z3.IntVal(0)
            out.append(V._forall(pa, a.at(pa, z3.IntVal(0)) == zero, [a.at(pa, z3.IntVal(0))] if pa else []))
            # zero summands
            m = z3.FreshConst(z3.IntSort(), 'm')
            w = z3.Function('w0!%s' % a.fn.name(), *([p.sort() for p in a.params] + [z3.IntSort(), z3.IntSort()]))
            ww = w(*(pa + [m]))
            out.append(z3.ForAll(pa + [m], z3.Or(a.at(pa, m) == zero, z3.And(0 <= ww, ww < m, a.f(pa, ww) != zero)),
                                 patterns=[a.at(pa, m)]))
            if nonneg(a.summand):
                j = z3.FreshConst(z3.IntSort(), 'j')
                out.append(V._forall(pa + [m], z3.Implies(m >= 0, a.at(pa, m) >= zero), [a.at(pa, m)]))
                t = trigger_of(a.summand, a.i)
                if t is not None:
                    tt = z3.substitute(t, *([(p, q) for p, q in zip(a.params, pa)] + [(a.i, j)]))
                    out.append(z3.ForAll(pa + [m, j], z3.Implies(z3.And(0 <= j, j < m), a.at(pa, m) >= a.f(pa, j)),
                                         patterns=[z3.MultiPattern(a.at(pa, m), tt)]))
            for b in self.sums[k + 1:] if len(self.sums) <= 12 else []:
                if a.sort != b.sort: continue
                out.append(self.ext_axiom(a, b))
            if a.params and len(self.sums) <= 12: out.append(self.ext_axiom(a, a))
        return out

    def ext_axiom(self, a, b):
        pa = [z3.FreshConst(p.sort(), 'p') for p in a.params]
        pb = [z3.FreshConst(p.sort(), 'q') for p in b.params]
        m = z3.FreshConst(z3.IntSort(), 'm')
        w = z3.Function('wx!%s!%s' % (a.fn.name(), b.fn.name()),
                        *([p.sort() for p in pa + pb] + [z3.IntSort(), z3.IntSort()]))
        ww = w(*(pa + pb + [m]))
        body = z3.Or(a.at(pa, m) == b.at(pb, m), z3.And(0 <= ww, ww < m, a.f(pa, ww) != b.f(pb, ww)))
        return z3.ForAll(pa + pb + [m], body, patterns=[z3.MultiPattern(a.at(pa, m), b.at(pb, m))])

    def new_sum(self, params, i, summand, sort=None):
        sort = sort or summand.sort()
        # share structurally identical definitions
        for s in self.sums:
            if s.sort == sort and len(s.params) == len(params) and \
                    all(p.sort() == q.sort() for p, q in zip(s.params, params)):
                if z3.substitute(s.summand, *([(p, q) for p, q in zip(s.params, params)] + [(s.i, i)])).eq(summand):
                    return s
        s = SumDef(params, i, summand, sort)
        self.sums.append(s)
        return s

    def check_valid(self, st, goal, timeout=3.0, extra=(), quick=False):
        """True if proved, False if a model exists, None if undecided"""
        if tr(goal): return True
        s = z3.Solver()
        limit(s, timeout)
        if quick: s.set('smt.mbqi', False)
        for a in self.theory(): s.add(a)
        for f, _ in st.facts: s.add(f)
        for c in st.pc: s.add(c)
        for c in extra: s.add(c)
        s.add(z3.Not(goal))
        t0 = time.time()
        r = s.check()
        self.qcount += 1
        self.qtime += time.time() - t0
        return True if r == z3.unsat else (False if r == z3.sat else None)

    def feasible(self, st):
        if st.pc and fl(st.pc[-1]): return False
        s = z3.Solver()
        limit(s, 0.15)
        for c in st.pc: s.add(c)
        for f, _ in st.facts:
            if not has_quant(f): s.add(f)
        lits = list(STRLIT.values())
        if len(lits) > 1: s.add(z3.Distinct(*lits))
        t0 = time.time()
        r = s.check()
        if r != z3.unsat:
            s2 = z3.Solver()
            limit(s2, 0.25)
            s2.set('smt.mbqi', False)
            for a in self.theory(): s2.add(a)
            for f, _ in st.facts: s2.add(f)
            for c in st.pc: s2.add(c)
            r = s2.check()
        self.qtime += time.time() - t0
        return r != z3.unsat

    def assume(self, st, *fs):
        """facts: true statements (definitions, contracts); remembered with the path they were added on"""
        st.facts = st.facts + tuple((f, st.pc) for f in fs if not tr(f))

    def guard(self, st, c):
        st.pc = st.pc + (c,)

    def split(self, st, c):
        """[(state, bool)] for the feasible truth values of c"""
        c = z3.simplify(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        self.tick()
        out = []
        for b in (True, False):
            s = st.fork()
            self.guard(s, c if b else z3.Not(c))
            if self.feasible(s): out.append((s, b))
        return out

    def tick(self):
        self.paths += 1
        if self.deadline and time.process_time() > self.deadline: raise Unsupported('time limit of the symbolic execution')
        if self.paths > 20000: raise Unsupported('too many paths')

    # ------------------------------------------------------------------ fresh values and heap
    def fresh(self, st, ty, name='v'):
        fam = Family(ty, '%s!%d' % (name, uid()), [c.sort() for c in st.ctx], enum=True)
        return fam.at(list(st.ctx))

    def fresh_fn(self, st, name, *sorts):
        """function of the loop context and further arguments; returns python callable on the further arguments"""
        f = z3.Function('%s!%d' % (name, uid()), *([c.sort() for c in st.ctx] + list(sorts))) \
            if st.ctx or len(sorts) > 1 else z3.Const('%s!%d' % (name, uid()), sorts[0])
        ctx = list(st.ctx)
        return lambda *a: f(*(ctx + list(a))) if (ctx or a) else f

    def alloc(self, st, v):
        c = uid()
        st.heap[c] = v
        return Ref(c)

    def box(self, st, v):
        if isinstance(v, MUT): return self.alloc(st, v)
        if isinstance(v, TupV): return TupV([self.box(st, x) for x in v.items])
        if isinstance(v, OptV): return OptV(v.isnone, self.box(st, v.val))
        return v

    def box_obj(self, st, v):
        """allocate an object whose fields get cells of their own"""
        if isinstance(v, ObjV):
            return self.alloc(st, ObjV(v.cls, {k: self.box_obj(st, x) for k, x in v.fields.items()}))
        return self.box(st, v)

    def read(self, st, ref):
        if isinstance(ref, Ref):
            v = st.heap[ref.cell]
            if isinstance(v, Redirect): return self.read(st, v.to)
            return v
        if isinstance(ref, Sub):
            self._check_epoch(st, ref)
            b = self.read(st, ref.base) if isinstance(ref.base, (Ref, Sub)) else ref.base
            if ref.kind == 'idx': return b.get(ref.key)
            if ref.kind == 'key': return b.val(ref.key)
            if ref.kind == 'field': return b.fields[ref.key]
            if ref.kind == 'tup': return b.items[ref.key]
            if ref.kind == 'opt': return b.val if isinstance(b, OptV) else b
        return ref

    def root(self, st, ref):
        while True:
            if isinstance(ref, Sub): ref = ref.base
            elif isinstance(ref, Ref) and isinstance(st.heap[ref.cell], Redirect): ref = st.heap[ref.cell].to
            else: return ref

    def _check_epoch(self, st, ref):
        r = self.root(st, ref)
        if isinstance(r, Ref):
            level = self.depth(st, ref.base)
            for lv, key in st.over.get(r.cell, ())[ref.epoch:]:
                if lv is not None and lv != level: continue   # an item of a container at another nesting level
                if key is None: raise Unsupported('use of an element reference after its container was rearranged')
                k = ref.key if not isinstance(ref.key, (int, str)) else None
                if k is None: raise Unsupported('stale element reference')
                kk = P(INT, k) if z3.is_expr(k) else k
                try:
                    same = eqv(kk, key)
                except Unsupported:
                    raise Unsupported('stale element reference')
                if self.check_valid(st, z3.Not(same), 1.0) is not True:
                    raise Unsupported('possibly stale element reference')

    def note_overwrite(self, st, ref, key):
        r = self.root(st, ref)
        if isinstance(r, Ref): st.over[r.cell] = st.over.get(r.cell, ()) + ((self.depth(st, ref), key),)

    def depth(self, st, ref):
        """nesting level of a container below its cell"""
        n = 0
        while True:
            if isinstance(ref, Sub): ref = ref.base; n += 1
            elif isinstance(ref, Ref) and isinstance(st.heap[ref.cell], Redirect): ref = st.heap[ref.cell].to
            else: return n

    def epoch(self, st, ref):
        r = self.root(st, ref)
        return len(st.over.get(r.cell, ())) if isinstance(r, Ref) else 0

    def write(self, st, ref, v):
        if isinstance(ref, Ref):
            old = st.heap[ref.cell]
            if isinstance(old, Redirect):
                if old.shared: raise Unsupported('write to a value stored in two places')
                return self.write(st, old.to, v)
            st.heap[ref.cell] = v
            return
        if isinstance(ref, Sub):
            self._check_epoch(st, ref)
            b = self.read(st, ref.base) if isinstance(ref.base, (Ref, Sub)) else None
            if b is None: raise Unsupported('write into a temporary')
            v = self.snap(st, v)
            if ref.kind == 'idx':
                if b.items is not None and int_value(ref.key) is not None:
                    items = list(b.items); items[int_value(ref.key)] = v
                    nb = ListV(b.n, None, b.el, items)
                else:
                    nb = ListV(b.n, (lambda i, b=b, k=ref.key: ite(i == k, v, b.get(i))), b.el)
            elif ref.kind == 'key':
                vt = b.v
                try: vt = join_ty(b.v, typeof(v))
                except Unsupported: pass
                nb = DictV(b.k, vt, b.dom, (lambda q, b=b, k=ref.key: ite(eqv(q, k), v, coerce(b.val(q), vt) if vt != b.v else b.val(q))), b.enum, b.default)
            elif ref.kind == 'field':
                nb = ObjV(b.cls, dict(b.fields, **{ref.key: v}))
            elif ref.kind == 'tup':
                items = list(b.items); items[ref.key] = v
                nb = TupV(items)
            elif ref.kind == 'opt':
                nb = OptV(b.isnone, v)
            else: raise Unsupported('write %r' % ref)
            return self.write(st, ref.base, nb)
        raise Unsupported('write to %r' % (ref,))

    def snap(self, st, v):
        """deep by-value copy of a value (no references)"""
        if isinstance(v, (Ref, Sub)): return self.snap(st, self.read(st, v))
        if isinstance(v, TupV): return TupV([self.snap(st, x) for x in v.items])
        if isinstance(v, OptV): return OptV(v.isnone, self.snap(st, v.val))
        if isinstance(v, ListV) and v.items is not None:
            return ListV(v.n, None, v.el, [self.snap(st, x) for x in v.items]) if v.el is not None else \
                clist([self.snap(st, x) for x in v.items])
        if isinstance(v, CDictV): return CDictV({k: self.snap(st, x) for k, x in v.d.items()}, v.default)
        if isinstance(v, ObjV): return ObjV(v.cls, {k: self.snap(st, x) for k, x in v.fields.items()})
        return v

    def store_by_value(self, st, sv, target):
        """sv is being stored by value at `target` (a Sub): later writes through sv go there"""
        v = self.snap(st, sv)
        if isinstance(sv, Ref) and not isinstance(v, P):
            old = st.heap[sv.cell]
            if self.cell_of(st, sv) in self.maxlen: raise Unsupported('bounded deque stored inside a container')
            if isinstance(old, Redirect): st.heap[sv.cell] = Redirect(old.to, True)
            else: st.heap[sv.cell] = Redirect(target)
        return v

    def handle(self, st, base, kind, key, v):
        """a value read out of a container, as an expression value"""
        if isinstance(v, (ListV, DictV, CDictV, SetV, ObjV, ArrV)):
            if isinstance(base, (Ref, Sub)): return Sub(base, kind, key, self.epoch(st, base))
            return self.alloc(st, v)
        if isinstance(v, TupV):
            h = Sub(base, kind, key, self.epoch(st, base)) if isinstance(base, (Ref, Sub)) else v
            return TupV([self.handle(st, h, 'tup', k, x) for k, x in enumerate(v.items)])
        if isinstance(v, OptV):
            h = Sub(base, kind, key, self.epoch(st, base)) if isinstance(base, (Ref, Sub)) else v
            return OptV(v.isnone, self.handle(st, h, 'opt', 0, v.val))
        return v

    def val(self, st, sv):
        """content of a reference (one level)"""
        return self.read(st, sv) if isinstance(sv, (Ref, Sub)) else sv

    # ------------------------------------------------------------------ enumerations
    def enum_of(self, st, v):
        """(n, keyat, idx) of a dict/set content; created on demand for derived containers"""
        if isinstance(v, CDictV): v = cdict_to_dict(v)
        if v.k is None: return z3.IntVal(0), (lambda i: NONEV), (lambda k: z3.IntVal(0))
        if v.enum is not None: return v.enum
        n = self.fresh_fn(st, 'size', z3.IntSort())()
        ks = flat_sorts(v.k)
        idx = self.fresh_fn(st, 'idx', *(ks + [z3.IntSort()]))
        kf = Family(v.k, 'key!%d' % uid(), [c.sort() for c in st.ctx] + [z3.IntSort()])
        ctx = list(st.ctx)
        keyat = lambda i: kf.at(ctx + [i])
        i = z3.FreshConst(z3.IntSort(), 'i')
        k, cs = keyconst(v.k)
        ki = keyat(i)
        if len(ks) == 1 and isinstance(kf.ty, TPrim):
            def info(a):
                sub = [(x, y) for x, y in zip(ctx, a)]
                f = lambda t: z3.substitute(t, *sub) if sub else t
                # the enumerated container must not mention anything bound elsewhere
                return f(n), lambda c: f(z3.substitute(v.dom(k), (cs[0], c))), lambda c: f(z3.substitute(idx(*cs), (cs[0], c)))
            V.ENUMKEY[kf.f.name() if not z3.is_expr(kf.f) else kf.f.decl().name()] = info
        self.assume(st, n >= 0,
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(v.dom(ki), idx(*flat(ki)) == i)),
                              patterns=[z3.MultiPattern(*flat(ki))]),
                    z3.ForAll(cs, z3.Implies(v.dom(k), z3.And(0 <= idx(*cs), idx(*cs) < n,
                                                              eqv(keyat(idx(*cs)), k))),
                              patterns=[idx(*cs)]))
        d = v.dom(k)
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            # also trigger on the membership predicate itself
            self.assume(st, z3.ForAll(cs, z3.Implies(d, z3.And(0 <= idx(*cs), idx(*cs) < n,
                                                               eqv(keyat(idx(*cs)), k))), patterns=[d]))
        v.enum = (n, keyat, lambda q: idx(*flat(coerce(q, v.k))))
        return v.enum

    def member(self, st, lst, x):
        """Bool term: x occurs in list content lst (value equality)"""
        if lst.items is not None:
            if not lst.items: return z3.BoolVal(False)
            return z3.Or(*[eqv(self.snap(st, y), self.snap(st, x)) for y in lst.items])
        m = getattr(lst, 'mem', None)
        x = coerce(x, lst.el) if isinstance(lst.el, (TPrim, TTup)) else x
        if m is None:
            m = self.mk_member(st, lst)
            lst.mem = m
        dom, facts = m
        for f in facts: self.assume(st, f)
        return dom(x)

    def mk_member(self, st, lst):
        try:
            ks = flat_sorts(lst.el)
        except Unsupported:
            # structural membership by a quantifier
            def dom(x):
                i = z3.FreshConst(z3.IntSort(), 'i')
                return z3.Exists([i], z3.And(0 <= i, i < lst.n, eqv(lst.get(i), x)))
            return dom, []
        if lst.el == INT:
            # the numbers from a to a + n - 1
            i = z3.FreshConst(z3.IntSort(), 'i')
            off = z3.simplify(lst.get(i).t - i) if isinstance(lst.get(i), P) else i
            if not mentions_const(off, i):
                return (lambda x: z3.And(off <= flat(x)[0], flat(x)[0] < off + lst.n)), []
        D = self.fresh_fn(st, 'mem', *(ks + [z3.BoolSort()]))
        w = self.fresh_fn(st, 'at', *(ks + [z3.IntSort()]))
        k, cs = keyconst(lst.el)
        i = z3.FreshConst(z3.IntSort(), 'i')
        ci = flat(lst.get(i))
        f1 = z3.ForAll(cs, z3.Implies(D(*cs), z3.And(0 <= w(*cs), w(*cs) < lst.n, eqv(lst.get(w(*cs)), k))),
                       patterns=[D(*cs)])
        f2 = forall_pat([i], z3.Implies(z3.And(0 <= i, i < lst.n), D(*ci)), ci)
        return (lambda x: D(*flat(x))), [f1, f2]

    # ------------------------------------------------------------------ truthiness, comparison
    def truth(self, st, v):
        v0 = v
        v = self.val(st, v)
        if isinstance(v, P):
            if v.ty == BOOL: return v.t
            if v.ty in (INT, REAL): return v.t != 0
            if v.ty == STR: return v.t != strlit('')
            return z3.BoolVal(True)
        if isinstance(v, NoneV): return z3.BoolVal(False)
        if isinstance(v, OptV): return z3.And(z3.Not(v.isnone), self.truth(st, v.val))
        if isinstance(v, TupV): return z3.BoolVal(bool(v.items))
        if isinstance(v, ListV): return v.n != 0
        if isinstance(v, CDictV): return z3.BoolVal(bool(v.d))
        if isinstance(v, (DictV, SetV)): return self.enum_of(st, v)[0] != 0
        if isinstance(v, ConcV): return z3.BoolVal(True)
        if isinstance(v, ObjV):
            if self.repo.lookup_attr(v.cls, '__len__') or self.repo.lookup_attr(v.cls, '__bool__'):
                return None
            return z3.BoolVal(True)
        raise Unsupported('truth value of %r' % (v,))

    def truth_split(self, st, v):
        t = self.truth(st, v)
        if t is None:
            c = self.val(st, v)
            out = []
            for s, r in self.call_method(st, v, '__len__', [], {}):
                if isinstance(r, Exc): out.append((s, r)); continue
                out += self.split(s, r.t != 0)
            return out
        return self.split(st, t)

    def less(self, st, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if isinstance(a, P) and isinstance(b, P):
            if a.ty == STR and b.ty == STR:
                x, y = str_value(a.t), str_value(b.t)
                if x is not None and y is not None: return z3.BoolVal(x < y)
                return self.str_lt(a.t, b.t)
            if a.ty in (INT, REAL, BOOL) and b.ty in (INT, REAL, BOOL):
                ty = join_ty(a.ty, b.ty)
                if ty == BOOL: ty = INT
                return coerce(a, ty).t < coerce(b, ty).t
        if isinstance(a, TupV) and isinstance(b, TupV):
            r = z3.BoolVal(len(a.items) < len(b.items))
            for x, y in reversed(list(zip(a.items, b.items))):
                r = z3.Or(self.less(st, x, y), z3.And(eqv(x, y), r))
            return r
        raise Unsupported('order of %r and %r' % (a, b))

    # ------------------------------------------------------------------ iteration
    def iterview(self, st, sv):
        v = self.val(st, sv)
        if isinstance(v, TupV): return IterView(z3.IntVal(len(v.items)), None, list(v.items))
        if isinstance(v, ListV):
            base = sv if isinstance(sv, (Ref, Sub)) else None
            if v.items is not None: return IterView(v.n, v.get, list(v.items))
            return IterView(v.n, lambda i, s=None: self.handle(s or st, base, 'idx', i, v.get(i)) if base is not None
                            else v.get(i))
        if isinstance(v, CDictV): return IterView(z3.IntVal(len(v.d)), None, [pykey(k) for k in v.d])
        if isinstance(v, (DictV, SetV)):
            if v.k is None: return IterView(z3.IntVal(0), None, [])
            n, keyat, idx = self.enum_of(st, v)
            return IterView(n, lambda i, s=None: keyat(i))
        if isinstance(v, ConcV):
            if v.kind == 'iter': return v.view
            if v.kind == 'range':
                lo, hi, step = v.lo, v.hi, v.step
                sv_ = int_value(step)
                if sv_ == 1:
                    n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
                    cn = int_value(n)
                    if cn is not None:
                        return IterView(z3.IntVal(cn), None, [I(z3.simplify(lo + k)) for k in range(cn)])
                    if tr(lo == 0):
                        if st is not None and self.known(st, hi >= 0): n = hi
                    return IterView(n, lambda i, s=None: I(lo + i))
                if sv_ == -1:
                    n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
                    cn = int_value(n)
                    if cn is not None:
                        return IterView(z3.IntVal(cn), None, [I(z3.simplify(lo - k)) for k in range(cn)])
                    return IterView(n, lambda i, s=None: I(lo - i))
                cl, ch = int_value(lo), int_value(hi)
                if cl is not None and ch is not None and sv_:
                    return IterView(z3.IntVal(len(range(cl, ch, sv_))), None, [I(k) for k in range(cl, ch, sv_)])
        h = self.methods.get((self.kind(v), '__iter__'))
        if h: 
            rs = h(self, st, sv, [], {})
            return self.iterview(st, rs)
        raise Unsupported('iteration over %r' % (v,))

    def known(self, st, c):
        return tr(c) or self.check_valid(st, c, 0.5) is True

    def kind(self, v):
        if isinstance(v, P): return v.ty.name
        if isinstance(v, ListV): return 'list'
        if isinstance(v, (DictV, CDictV)): return 'dict'
        if isinstance(v, SetV): return 'set'
        if isinstance(v, TupV): return 'tuple'
        if isinstance(v, ArrV): return v.kind
        if isinstance(v, NoneV): return 'None'
        if isinstance(v, ObjV): return 'obj'
        if isinstance(v, OptV): return 'opt'
        if isinstance(v, ConcV): return v.kind
        return '?'

    # ------------------------------------------------------------------ calls
    def resolve(self, st, mod, name):
        e = self.repo.names(mod).get(name)
        if e is None:
            if name == '__file__': return S('/site/nephosem/module.py')
            return ConcV('builtin', name=name)
        return self.entry(st, e)

    def entry(self, st, e):
        if e[0] == 'func': return ConcV('func', mod=e[1], node=e[2], cls=None, closure=None)
        if e[0] == 'class': return ConcV('class', qual='%s:%s' % (e[1], e[2].name))
        if e[0] == 'mod': return ConcV('module', name=e[1])
        if e[0] == 'ext': return ConcV('ext', path=e[1])
        if e[0] == 'const':
            key = (e[1], id(e[2]))
            return self.module_const(st, e[1], e[2])
        raise Unsupported('name %r' % (e,))

    def module_const(self, st, mod, node):
        save_env, save_frame = st.env, st.frame
        st.env, st.frame = {}, Frame(mod, ast.parse('def _module_(): pass').body[0], None, 0)
        try:
            rs = self.ev(node, st)
        finally:
            st.env, st.frame = save_env, save_frame
        if len(rs) != 1 or isinstance(rs[0][1], Exc): raise Unsupported('module constant')
        rs[0][0].env, rs[0][0].frame = save_env, save_frame
        return rs[0][1]

    def call(self, st, fn, args, kwargs):
        self.tick()
        k = fn.kind if isinstance(fn, ConcV) else None
        if k == 'func':
            q = '%s:%s%s' % (fn.mod, (fn.cls.split(':')[1] + '.') if fn.cls else '', fn.node.name)
            if q in self.callees and not getattr(fn, 'force_inline', False):
                return self.callees[q](self, st, args, kwargs)
            return self.inline(st, fn, args, kwargs, q)
        if k == 'bound':
            return self.call(st, fn.fn, [fn.recv] + list(args), kwargs)
        if k == 'lambda':
            save = st.env, st.frame
            env = dict(fn.env)
            a = fn.node.args
            for p, v in zip(a.args, args): env[p.arg] = v
            for kk, v in kwargs.items(): env[kk] = v
            st.env, st.frame = env, fn.frame
            rs = self.ev(fn.node.body, st)
            for s, _ in rs: s.env, s.frame = dict(save[0]), save[1]
            return rs
        if k == 'class':
            if fn.qual in self.callees: return self.callees[fn.qual](self, st, args, kwargs)
            return self.construct(st, fn.qual, args, kwargs)
        if k == 'method':
            return self.call_method(st, fn.recv, fn.name, args, kwargs)
        if k == 'ext':
            h = self.ext.get(fn.path)
            if h is None: raise Unsupported('no contract for the external function %s' % fn.path)
            self.used_ext.add(fn.path)
            return self.norm(st, h(self, st, args, kwargs))
        if k == 'builtin':
            h = self.ext.get('builtins.' + fn.name)
            if h is None: raise Unsupported('no contract for builtin %s' % fn.name)
            return self.norm(st, h(self, st, args, kwargs))
        if k == 'type':
            h = self.ext.get('builtins.' + fn.name) or self.ext.get(fn.name)
            if h is None: raise Unsupported('no contract for type %s' % fn.name)
            return self.norm(st, h(self, st, args, kwargs))
        if k == 'ignored': return [(st, ConcV('ignored'))]
        if k == 'partial':
            return self.call(st, fn.fn, list(fn.args) + list(args), dict(fn.kw, **kwargs))
        if k == 'pyfn':
            return self.norm(st, fn.f(self, st, args, kwargs))
        v = self.val(st, fn)
        if isinstance(v, ObjV): return self.call_method(st, fn, '__call__', args, kwargs)
        raise Unsupported('call of %r' % (fn,))

    def norm(self, st, r):
        if isinstance(r, list): return r
        return [(st, r)]

    def construct(self, st, qual, args, kwargs):
        if self.repo.cls(qual) is None: raise Unsupported('class %s' % qual)
        for q in self.repo.mro(qual):
            c = self.repo.cls(q)
            for b in c[2].bases:
                if isinstance(b, ast.Name) and b.id in ('Exception', 'ValueError', 'KeyError'):
                    return [(st, Exc(qual.split(':')[1], '', None))]
        ref = self.alloc(st, ObjV(qual, {'*dyn': self.alloc(st, CDictV({}))} if qual in self.dyn_classes else {}))
        init = self.repo.lookup_attr(qual, '__init__')
        if init is None: return [(st, ref)]
        fn = ConcV('func', mod=init[1], node=init[2], cls=init[3], closure=None)
        out = []
        for s, r in self.call(st, fn, [ref] + list(args), kwargs):
            out.append((s, r if isinstance(r, Exc) else ref))
        return out

    def inline(self, st, fn, args, kwargs, qual):
        depth = (st.frame.depth if st.frame else 0) + 1
        if depth > self.MAXDEPTH: raise Unsupported('inlining too deep (recursion?) at %s' % qual)
        node = fn.node
        for d in node.decorator_list:
            nm = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if nm == 'classmethod':
                if args and isinstance(args[0], (Ref, Sub)): args = [ConcV('class', qual=self.read(st, args[0]).cls)] + list(args[1:])
            elif nm in ('timeit', 'property', 'staticmethod', 'contextmanager'): pass
            else: raise Unsupported('decorator of %s' % qual)
        self.inlined.add(qual)
        env = dict(fn.closure) if fn.closure else {}
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        bound = {}
        for nme, v in zip(names, args): bound[nme] = v
        if len(args) > len(names):
            if a.vararg is None: return [(st, Exc('TypeError', 'too many arguments'))]
        if a.vararg: bound[a.vararg.arg] = TupV(args[len(names):])
        extra = {}
        for kk, v in kwargs.items():
            if kk in names or kk in [p.arg for p in a.kwonlyargs]: bound[kk] = v
            elif a.kwarg: extra[kk] = v
            else: return [(st, Exc('TypeError', 'unexpected keyword ' + kk))]
        frame = Frame(fn.mod, node, fn.cls, depth)
        save = (st.env, st.frame)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: defaults[p.arg] = d
        for nme in names + [p.arg for p in a.kwonlyargs]:
            if nme not in bound:
                if nme not in defaults: return [(st, Exc('TypeError', 'missing argument ' + nme))]
                st.env, st.frame = {}, frame
                d = defaults[nme]
                if isinstance(d, (ast.Dict, ast.List)) and not getattr(d, 'keys', getattr(d, 'elts', None)):
                    # a mutable default object is shared between calls: allocate it as a global cell
                    bound[nme] = self.global_cell(st, (qual, nme), CDictV({}) if isinstance(d, ast.Dict) else clist([]))
                else:
                    rs = self.ev(d, st)
                    bound[nme] = rs[0][1]
        if a.kwarg: bound[a.kwarg.arg] = self.alloc(st, CDictV(extra))
        env.update(bound)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_fn(node))
        if isgen: env['__yield__'] = self.alloc(st, clist([]))
        st.env, st.frame = env, frame
        outs = self.exec_block(node.body, st)
        res = []
        for oc, s in outs:
            yl = s.env.get('__yield__')
            s.env, s.frame = dict(save[0]), save[1]
            if oc[0] in ('next', 'return'):
                res.append((s, yl if isgen else (oc[1] if oc[0] == 'return' else NONEV)))
            elif oc[0] == 'raise': res.append((s, oc[1]))
            else: raise Unsupported('outcome %r' % (oc,))
        return res

    def global_cell(self, st, key, init):
        cells = st.ghost.setdefault('globals', {})
        if key not in cells:
            cells = dict(cells); cells[key] = self.alloc(st, init); st.ghost['globals'] = cells
        return st.ghost['globals'][key]

    def call_method(self, st, recv, name, args, kwargs):
        v = self.val(st, recv)
        if isinstance(v, ObjV):
            e = self.repo.lookup_attr(v.cls, name)
            if e is not None and e[0] == 'func':
                return self.call_classfn(st, e, recv, args, kwargs)
            if name in v.fields:
                return self.call(st, v.fields[name], args, kwargs)
            raise Unsupported('method %s.%s' % (v.cls, name))
        if isinstance(v, OptV):
            out = []
            for s, b in self.split(st, v.isnone):
                if b: out.append((s, Exc('AttributeError', 'None has no %s' % name)))
                else: out += self.call_method(s, v.val, name, args, kwargs)
            return out
        if isinstance(v, ConcV) and v.kind == 'ignored': return [(st, ConcV('ignored'))]
        h = self.methods.get((self.kind(v), name)) or self.methods.get(('*', name))
        if h is None: raise Unsupported('method %s of %r' % (name, v))
        return self.norm(st, h(self, st, recv, args, kwargs))

    def call_classfn(self, st, e, recv, args, kwargs):
        fn = ConcV('func', mod=e[1], node=e[2], cls=e[3], closure=None)
        decs = [d.id for d in e[2].decorator_list if isinstance(d, ast.Name)]
        if 'staticmethod' in decs: return self.call(st, fn, args, kwargs)
        return self.call(st, fn, [recv] + list(args), kwargs)

    def getattr(self, st, obj, name):
        v = self.val(st, obj)
        if isinstance(v, ObjV):
            if name in v.fields: return [(st, self.handle(st, obj, 'field', name, v.fields[name]))]
            if name == '__class__': return [(st, ConcV('class', qual=v.cls))]
            if name == '__dict__': return [(st, ConcV('objdict', obj=obj))]
            e = self.repo.lookup_attr(v.cls, name)
            if e is not None:
                if e[0] == 'const': return [(st, self.module_const(st, e[1], e[2]))]
                decs = [d.id for d in e[2].decorator_list if isinstance(d, ast.Name)]
                fn = ConcV('func', mod=e[1], node=e[2], cls=e[3], closure=None)
                if 'property' in decs: return self.call(st, fn, [obj], {})
                if 'staticmethod' in decs: return [(st, fn)]
                if 'classmethod' in decs: return [(st, ConcV('bound', fn=fn, recv=ConcV('class', qual=v.cls)))]
                return [(st, ConcV('bound', fn=fn, recv=obj))]
            g = self.repo.lookup_attr(v.cls, '__getattr__')
            if g is not None: return self.call_classfn(st, g, obj, [S(name)], {})
            return [(st, Exc('AttributeError', name))]
        if isinstance(v, ConcV):
            if v.kind == 'module':
                if v.name + '.' + name in self.repo.mods: return [(st, ConcV('module', name=v.name + '.' + name))]
                e = self.repo.names(v.name).get(name)
                if e: return [(st, self.entry(st, e))]
                raise Unsupported('%s.%s' % (v.name, name))
            if v.kind == 'ext':
                p = v.path + '.' + name
                c = self.ext.get('attr:' + p)
                if c is not None: return [(st, c)]
                return [(st, ConcV('ext', path=p))]
            if v.kind == 'class':
                if name == '__name__': return [(st, S(v.qual.split(':')[1]))]
                e = self.repo.lookup_attr(v.qual, name)
                if e is None: raise Unsupported('class attribute %s' % name)
                if e[0] == 'const': return [(st, self.module_const(st, e[1], e[2]))]
                decs = [d.id for d in e[2].decorator_list if isinstance(d, ast.Name)]
                fn = ConcV('func', mod=e[1], node=e[2], cls=e[3], closure=None)
                if 'classmethod' in decs: return [(st, ConcV('bound', fn=fn, recv=v))]
                return [(st, fn)]
            if v.kind == 'ignored': return [(st, v)]
            if v.kind == 'super':
                for q in self.repo.mro(v.cls)[1:]:
                    e = self.repo.lookup_attr(q, name)
                    if e: return [(st, ConcV('bound', fn=ConcV('func', mod=e[1], node=e[2], cls=e[3], closure=None), recv=v.recv))]
                return [(st, ConcV('ignored'))]
            if v.kind == 'slice':
                return [(st, getattr(v, {'start': 'lo', 'stop': 'hi', 'step': 'step'}[name]))]
            if v.kind == 'type' and name == '__name__': return [(st, S(v.name))]
        if isinstance(v, OptV):
            out = []
            for s, b in self.split(st, v.isnone):
                if b: out.append((s, Exc('AttributeError', 'None has no %s' % name)))
                else: out += self.getattr(s, v.val, name)
            return out
        if isinstance(v, NoneV):
            return [(st, Exc('AttributeError', 'None has no attribute %s' % name))]
        h = self.attrs.get((self.kind(v), name))
        if h is not None: return self.norm(st, h(self, st, obj))
        if (self.kind(v), name) in self.methods or ('*', name) in self.methods:
            return [(st, ConcV('method', recv=obj, name=name))]
        if name == 'shape' and isinstance(v, P) and v.ty in (REAL, INT):
            self.assumptions.add('a number whose .shape is read is a numpy scalar (shape ())')
            return [(st, TupV([]))]
        raise Unsupported('attribute %s of %r' % (name, v))

    # ------------------------------------------------------------------ expressions
    def bind(self, rs, f):
        out = []
        for s, v in rs:
            if isinstance(v, Exc): out.append((s, v))
            else: out += f(s, v)
        return out

    def ev_list(self, exprs, st):
        rs = [(st, [])]
        for e in exprs:
            nxt = []
            for s, acc in rs:
                if isinstance(acc, Exc): nxt.append((s, acc)); continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v) if isinstance(v, Exc) else (s2, acc + [v]))
            rs = nxt
        return rs

    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st)

    def ev_Constant(self, e, st):
        c = e.value
        if c is None: return [(st, NONEV)]
        if isinstance(c, bool): return [(st, B(c))]
        if isinstance(c, int): return [(st, I(c))]
        if isinstance(c, float): return [(st, R(repr(c)))]
        if isinstance(c, str): return [(st, S(c))]
        if c is Ellipsis: return [(st, ConcV('ellipsis'))]
        raise Unsupported('constant %r' % (c,))

    def ev_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, Poison): raise Unsupported('loop-carried variable %s (%s)' % (e.id, v.why))
            return [(st, v)]
        if e.id in assigned_names(st.frame.node):
            return [(st, Exc('UnboundLocalError', e.id))]
        return [(st, self.resolve(st, st.frame.mod, e.id))]

    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, v: self.getattr(s, v, e.attr))

    def ev_Tuple(self, e, st):
        return self.bind(self.ev_list(e.elts, st), lambda s, vs: [(s, TupV(vs))])

    def ev_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts): raise Unsupported('star in list')
        return self.bind(self.ev_list(e.elts, st), lambda s, vs: [(s, self.alloc(s, self.mixed_list(s, vs)))])

    def mixed_list(self, st, vs):
        return clist(vs)

    def ev_Set(self, e, st):
        def f(s, vs):
            r = self.alloc(s, SetV(None, lambda k: z3.BoolVal(False)))
            for v in vs: self.set_add(s, r, v)
            return [(s, r)]
        return self.bind(self.ev_list(e.elts, st), f)

    def ev_Dict(self, e, st):
        def f(s, vs):
            vs = list(vs)
            r = self.alloc(s, CDictV({}))
            rs, bad = [(s, None)], []
            for k in e.keys:
                kv = None if k is None else vs.pop(0)
                v = vs.pop(0)
                new = []
                for s1, _ in rs:
                    new += self.setitem(s1, r, kv, v) if k is not None else self.norm(s1, self.methods[('dict', 'update')](self, s1, r, [v], {}))
                bad += [q for q in new if isinstance(q[1], Exc)]
                rs = [q for q in new if not isinstance(q[1], Exc)]
            return bad + [(s1, r) for s1, _ in rs]
        return self.bind(self.ev_list([x for k, v in zip(e.keys, e.values) for x in (k, v) if x is not None], st), f)

    def ev_JoinedStr(self, e, st):
        exprs = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        if any(isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion not in (-1,)) for x in e.values):
            raise Unsupported('format specification')
        def f(s, vs):
            vs = list(vs)
            parts = []
            for x in e.values:
                parts.append(x.value if isinstance(x, ast.Constant) else self.to_str(s, vs.pop(0)))
            return [(s, P(STR, self.concat(parts)))]
        return self.bind(self.ev_list(exprs, st), f)

    def to_str(self, st, v):
        v = self.val(st, v)
        if isinstance(v, P):
            if v.ty == STR: return v.t
            if is_conc(v) and v.ty == INT: return strlit(str(conc(v)))
            return self.uf('str_of_%s' % v.ty.name, v.ty.sort, StrSort)(v.t)
        if isinstance(v, NoneV): return strlit('None')
        if isinstance(v, OptV): return z3.If(v.isnone, strlit('None'), self.to_str(st, v.val))
        return self.fresh_fn(st, 'str_of', StrSort)()

    def ev_Lambda(self, e, st):
        return [(st, ConcV('lambda', node=e, env=dict(st.env), frame=st.frame))]

    def ev_IfExp(self, e, st):
        def f(s, v):
            out = []
            for s2, b in self.truth_split(s, v):
                if isinstance(b, Exc): out.append((s2, b))
                else: out += self.ev(e.body if b else e.orelse, s2)
            return out
        rs = self.bind(self.ev(e.test, st), f)
        return rs

    def ev_UnaryOp(self, e, st):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                t = self.truth(s, v)
                if t is None: return [(x, B(not b)) for x, b in self.truth_split(s, v)]
                return [(s, B(z3.simplify(z3.Not(t))))]
            w = self.val(s, v)
            if isinstance(w, P) and w.ty in (INT, REAL, BOOL):
                t = to_int(w.t)
                ty = INT if w.ty == BOOL else w.ty
                if isinstance(e.op, ast.USub): return [(s, P(ty, z3.simplify(-t)))]
                if isinstance(e.op, ast.UAdd): return [(s, P(ty, t))]
            h = self.methods.get((self.kind(w), type(e.op).__name__))
            if h: return self.norm(s, h(self, s, v, [], {}))
            raise Unsupported('unary %s on %r' % (type(e.op).__name__, w))
        return self.bind(self.ev(e.operand, st), f)

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        def go(s, k):
            rs = self.ev(e.values[k], s)
            if k == len(e.values) - 1: return rs
            def f(s2, v):
                w = self.val(s2, v)
                # pure shortcut: boolean terms combine without forking when the rest is pure
                if isinstance(w, P) and w.ty == BOOL and not is_conc(w):
                    probe = s2.fork()
                    self.guard(probe, w.t if isand else z3.Not(w.t))
                    rest = go(probe, k + 1)
                    if len(rest) == 1 and isinstance(rest[0][1], P) and rest[0][1].ty == BOOL and \
                            rest[0][0].heap == probe.heap:
                        r = rest[0][1].t
                        s2.facts = rest[0][0].facts
                        return [(s2, P(BOOL, z3.And(w.t, r) if isand else z3.Or(w.t, r)))]
                    out = rest
                    other = s2.fork()
                    self.guard(other, z3.Not(w.t) if isand else w.t)
                    if self.feasible(other): out = out + [(other, B(not isand))]
                    return out
                out = []
                for s3, b in self.truth_split(s2, v):
                    if isinstance(b, Exc): out.append((s3, b))
                    elif b == isand: out += go(s3, k + 1)
                    else: out.append((s3, v))
                return out
            return self.bind(rs, f)
        return go(st, 0)

    def ev_Compare(self, e, st):
        def go(s, left, k):
            def f(s2, right):
                def g(s3, r):
                    if k == len(e.ops) - 1: return [(s3, r)]
                    out = []
                    for s4, b in self.truth_split(s3, r):
                        if b is True: out += go(s4, right, k + 1)
                        else: out.append((s4, B(False)))
                    return out
                return self.bind(self.compare(s2, e.ops[k], left, right), g)
            return self.bind(self.ev(e.comparators[k], s), f)
        return self.bind(self.ev(e.left, st), lambda s, v: go(s, v, 0))

    CMP = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__', 'Eq': '__eq__', 'NotEq': '__ne__'}

    def compare(self, st, op, a, b):
        o = type(op).__name__
        va, vb = self.val(st, a), self.val(st, b)
        if o in ('Is', 'IsNot'):
            if isinstance(va, NoneV) or isinstance(vb, NoneV):
                x = vb if isinstance(va, NoneV) else va
                if isinstance(x, NoneV): r = z3.BoolVal(True)
                elif isinstance(x, OptV): r = x.isnone
                else: r = z3.BoolVal(False)
            elif isinstance(a, Ref) and isinstance(b, Ref): r = z3.BoolVal(a.cell == b.cell)
            elif isinstance(va, P) and isinstance(vb, P): r = eqv(va, vb)
            elif isinstance(va, ConcV) and isinstance(vb, ConcV): r = z3.BoolVal(repr(va) == repr(vb))
            else: raise Unsupported('identity of %r and %r' % (va, vb))
            return [(st, B(z3.simplify(r if o == 'Is' else z3.Not(r))))]
        if o in ('In', 'NotIn'):
            return self.bind(self.contains(st, b, a),
                             lambda s, r: [(s, r if o == 'In' else B(z3.simplify(z3.Not(self.truth(s, r)))))])
        for x, y, vx, oo in ((a, b, va, o), (b, a, vb, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(o, o))):
            if isinstance(vx, ObjV):
                m = self.CMP[oo]
                if self.repo.lookup_attr(vx.cls, m): return self.call_method(st, x, m, [y], {})
        if isinstance(va, ArrV) or isinstance(vb, ArrV):
            h = self.methods[('arr', 'compare')]
            return self.norm(st, h(self, st, o, a, b))
        if o in ('Eq', 'NotEq'):
            r = eqv(self.snap(st, a), self.snap(st, b))
            return [(st, B(r if o == 'Eq' else z3.Not(r)))]
        if isinstance(va, OptV) or isinstance(vb, OptV):
            x = va if isinstance(va, OptV) else vb
            out = []
            for s, isn in self.split(st, x.isnone):
                if isn: out.append((s, Exc('TypeError', 'comparison with None')))
                else: out += self.compare(s, op, va.val if isinstance(va, OptV) else a, vb.val if (isinstance(vb, OptV) and x is not vb) or (x is vb) else b)
            return out
        if isinstance(va, NoneV) or isinstance(vb, NoneV): return [(st, Exc('TypeError', 'comparison with None'))]
        if o == 'Lt': r = self.less(st, a, b)
        elif o == 'Gt': r = self.less(st, b, a)
        elif o == 'LtE': r = z3.Not(self.less(st, b, a))
        else: r = z3.Not(self.less(st, a, b))
        return [(st, B(z3.simplify(r)))]

    def contains(self, st, c, x):
        v = self.val(st, c)
        if isinstance(v, CDictV):
            if is_conc(x): return [(st, B(conc(x) in v.d))]
            if not v.d: return [(st, B(False))]
            xs = self.snap(st, x)
            return [(st, B(z3.Or(*[eqv(pykey(k), xs) for k in v.d])))]
        if isinstance(v, (DictV, SetV)):
            if v.k is None: return [(st, B(False))]
            xs = self.snap(st, x)
            if v.k == INT and isinstance(xs, P) and xs.ty == REAL:
                return [(st, B(z3.And(z3.IsInt(xs.t), v.dom(P(INT, z3.ToInt(xs.t))))))]
            try: xk = coerce(xs, v.k)
            except Unsupported: return [(st, B(False))] if isinstance(xs, (P, NoneV, TupV)) and not isinstance(v.k, TOpt) else self._no(v, xs)
            return [(st, B(v.dom(xk)))]
        if isinstance(v, ListV): return [(st, B(self.member(st, v, self.snap(st, x))))]
        if isinstance(v, TupV):
            if not v.items: return [(st, B(False))]
            return [(st, B(z3.simplify(z3.Or(*[eqv(self.snap(st, y), self.snap(st, x)) for y in v.items]))))]
        if isinstance(v, ObjV): return self.call_method(st, c, '__contains__', [x], {})
        if isinstance(v, P) and v.ty == STR:
            xx = self.val(st, x)
            a, b = str_value(v.t), str_value(xx.t)
            if a is not None and b is not None: return [(st, B(b in a))]
            return [(st, B(self.uf('str_contains', StrSort, StrSort, z3.BoolSort())(v.t, xx.t)))]
        if isinstance(v, ConcV) and v.kind == 'range':
            t = self.val(st, x).t
            return [(st, B(z3.And(v.lo <= t, t < v.hi)))]
        if isinstance(v, ConcV) and v.kind == 'iter' and getattr(v, 'dom', None) is not None:
            return [(st, B(v.dom(self.snap(st, x))))]
        h = self.methods.get((self.kind(v), '__contains__'))
        if h: return self.norm(st, h(self, st, c, [x], {}))
        if isinstance(v, ConcV) and v.kind == 'iter':
            iv = v.view
            if iv.items is not None:
                return [(st, B(z3.Or(*[eqv(self.snap(st, y), self.snap(st, x)) for y in iv.items]) if iv.items else False))]
            l = ListV(iv.n, lambda i: iv.get(i), typeof(iv.get(z3.IntVal(0))))
            return [(st, B(self.member(st, l, self.snap(st, x))))]
        raise Unsupported('membership in %r' % (v,))

    def _no(self, v, x): raise Unsupported('membership of %r in %r' % (x, v))

    def key(self, st, x, kty):
        return coerce(self.snap(st, x), kty)

    def ev_BinOp(self, e, st):
        return self.bind(self.ev(e.left, st), lambda s, a: self.bind(
            self.ev(e.right, s), lambda s2, b: self.binop(s2, type(e.op).__name__, a, b)))

    def binop(self, st, op, a, b):
        va, vb = self.val(st, a), self.val(st, b)
        num = (INT, REAL, BOOL)
        if isinstance(va, ArrV) or isinstance(vb, ArrV):
            return self.norm(st, self.methods[('arr', 'binop')](self, st, op, a, b))
        if isinstance(va, P) and isinstance(vb, P) and va.ty in num and vb.ty in num:
            ty = join_ty(va.ty, vb.ty)
            if ty == BOOL: 
                if op in ('BitAnd', 'BitOr'):
                    return [(st, B(z3.And(va.t, vb.t) if op == 'BitAnd' else z3.Or(va.t, vb.t)))]
                ty = INT
            x, y = coerce(va, ty).t, coerce(vb, ty).t
            if op == 'Add': return [(st, P(ty, x + y))]
            if op == 'Sub': return [(st, P(ty, x - y))]
            if op == 'Mult': return [(st, P(ty, x * y))]
            if op == 'Div':
                x, y = to_real(x), to_real(y)
                return self.div0(st, y, lambda s: P(REAL, x / y))
            if op in ('FloorDiv', 'Mod'):
                if ty == INT:
                    def f(s):
                        # Python floors; z3 div is Euclidean: they agree for positive divisors
                        q = z3.If(y > 0, x / y, -(x / -y) if False else z3.If(x % y == 0, x / y, x / y - 0))
                        if not self.known(s, y > 0): raise Unsupported('floor division by a possibly negative number')
                        return P(INT, x / y) if op == 'FloorDiv' else P(INT, x % y)
                    return self.div0(st, y, f)
                raise Unsupported('real floor division')
            if op == 'Pow':
                ey = int_value(vb.t) if vb.ty == INT else None
                if ey is None and vb.ty == REAL:
                    rv = real_value(vb.t)
                    if rv is not None and rv == int(rv): ey = int(rv)
                    elif rv is not None and float(rv) == 0.5:
                        return [(st, P(REAL, self.uf('sqrt', z3.RealSort(), z3.RealSort())(to_real(va.t))))]
                if ey is not None and 0 <= ey <= 4:
                    r = P(ty, z3.IntVal(1) if ty == INT else z3.RealVal(1))
                    t = coerce(va, ty).t
                    acc = t
                    for _ in range(ey - 1): acc = acc * t
                    return [(st, P(ty, acc) if ey else r)]
                raise Unsupported('power')
        if isinstance(va, P) and va.ty == STR and op == 'Add' and isinstance(vb, P) and vb.ty == STR:
            return [(st, P(STR, self.concat([va.t, vb.t])))]
        if isinstance(va, P) and va.ty == STR and op == 'Mod':
            args = vb.items if isinstance(vb, TupV) else [b]
            fmt = str_value(va.t)
            if fmt is not None:
                import re as _re
                parts = _re.split(r'%[sd]', fmt)
                if len(parts) == len(args) + 1 and '%' not in ''.join(parts):
                    seq = [parts[0]]
                    for x, p in zip(args, parts[1:]): seq += [self.to_str(st, x), p]
                    return [(st, P(STR, self.concat(seq)))]
            return [(st, P(STR, self.fresh_fn(st, 'fmt', StrSort)()))]
        if op == 'Add' and isinstance(va, ListV) and isinstance(vb, ListV):
            return [(st, self.alloc(st, self.list_concat(st, self.snap(st, a), self.snap(st, b))))]
        if op == 'Add' and isinstance(va, TupV) and isinstance(vb, TupV):
            return [(st, TupV(va.items + vb.items))]
        if op == 'Mult' and (isinstance(va, ListV) or isinstance(vb, ListV)):
            l, k = (va, vb) if isinstance(va, ListV) else (vb, va)
            if l.items is not None and len(l.items) == 1 and isinstance(k, P):
                x = self.snap(st, l.items[0])
                n = z3.If(k.t > 0, k.t, z3.IntVal(0))
                cn = int_value(n)
                if cn is not None: return [(st, self.alloc(st, clist([x] * cn)))]
                return [(st, self.alloc(st, ListV(n, lambda i: x, typeof(x))))]
        if isinstance(va, SetV) and isinstance(vb, SetV):
            k = join_ty(va.k, vb.k)
            x, y = coerce(va, TSet(k)), coerce(vb, TSet(k))
            f = {'BitAnd': lambda q: z3.And(x.dom(q), y.dom(q)), 'BitOr': lambda q: z3.Or(x.dom(q), y.dom(q)),
                 'Sub': lambda q: z3.And(x.dom(q), z3.Not(y.dom(q))),
                 'BitXor': lambda q: z3.Xor(x.dom(q), y.dom(q))}.get(op)
            if f: return [(st, self.alloc(st, SetV(k, f)))]
        for x, y, vx, m in ((a, b, va, {'Add': '__add__', 'Mult': '__mul__'}.get(op)),):
            if isinstance(vx, ObjV) and m: return self.call_method(st, x, m, [y], {})
        if isinstance(va, OptV) or isinstance(vb, OptV):
            out = []
            x = va if isinstance(va, OptV) else vb
            for s, isn in self.split(st, x.isnone):
                if isn: out.append((s, Exc('TypeError', 'operand is None')))
                else: out += self.binop(s, op, va.val if isinstance(va, OptV) else a,
                                        vb.val if isinstance(vb, OptV) and not isinstance(va, OptV) else b)
            return out
        h = self.methods.get((self.kind(va), 'binop')) or self.methods.get((self.kind(vb), 'binop'))
        if h: return self.norm(st, h(self, st, op, a, b))
        raise Unsupported('%s on %r and %r' % (op, va, vb))

    def div0(self, st, y, f):
        if self.allow_div0: return [(st, f(st))]
        out = []
        for s, z in self.split(st, y == 0):
            out.append((s, Exc('ZeroDivisionError')) if z else (s, f(s)))
        return out

    def list_concat(self, st, a, b):
        if a.items is not None and b.items is not None: return clist(a.items + b.items)
        if a.items is not None and not a.items: return b
        if b.items is not None and not b.items: return a
        el = join_ty(a.el, b.el)
        return ListV(a.n + b.n, lambda i: (coerce(b.get(i), el) if tr(a.n == 0) else
                                           ite(i < a.n, coerce(a.get(i), el), coerce(b.get(i - a.n), el))), el)

    # ------------------------------------------------------------------ subscripts
    def ev_Slice(self, e, st):
        es = [x for x in (e.lower, e.upper, e.step) if x is not None]
        def f(s, vs):
            vs = list(vs)
            g = lambda x: vs.pop(0) if x is not None else NONEV
            return [(s, ConcV('slice', lo=g(e.lower), hi=g(e.upper), step=g(e.step)))]
        return self.bind(self.ev_list(es, st), f)

    def ev_Subscript(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, o: self.bind(
            self.ev(e.slice, s), lambda s2, k: self.getitem(s2, o, k)))

    def norm_index(self, st, i, n):
        """index term normalised for negative values; returns [(st, term or Exc)]"""
        c = int_value(i)
        if c is not None:
            j = z3.IntVal(c) if c >= 0 else n + c
        else:
            j = i if self.known(st, i >= 0) else i + n if self.known(st, i < 0) else z3.If(i < 0, i + n, i)
        out = []
        for s, ok in self.split(st, z3.And(0 <= j, j < n)):
            out.append((s, z3.simplify(j) if ok else Exc('IndexError')))
        return out

    def getitem(self, st, o, k):
        v = self.val(st, o)
        kv = self.val(st, k)
        if isinstance(v, ListV) or isinstance(v, TupV):
            items = v.items
            n = v.n if isinstance(v, ListV) else z3.IntVal(len(items))
            if isinstance(kv, ConcV) and kv.kind == 'slice': return self.getslice(st, o, v, kv)
            if isinstance(kv, P) and kv.ty in (INT, BOOL):
                t = to_int(kv.t)
                def f(s, j):
                    if isinstance(v, TupV):
                        jv = int_value(j)
                        if jv is not None: return [(s, items[jv])]
                        r = items[-1]
                        for q in range(len(items) - 2, -1, -1): r = ite(j == q, items[q], r)
                        return [(s, r)]
                    jv = int_value(j)
                    if items is not None and jv is not None and isinstance(items[jv], (Ref, Sub, ConcV, TupV)):
                        return [(s, items[jv])]
                    return [(s, self.handle(s, o, 'idx', j, v.get(j)))]
                return self.bind(self.norm_index(st, t, n), f)
        if isinstance(v, CDictV):
            if is_conc(kv):
                key = conc(kv)
                if key in v.d: return [(st, v.d[key])]
                if v.default is not None: return self.dict_default(st, o, k)
                return [(st, Exc('KeyError', str(key)))]
            if v.d:
                return self.getitem_dict(st, o, cdict_to_dict(self.snap(st, v)), k) if not any(
                    isinstance(x, (Ref, Sub, ConcV)) for x in v.d.values()) else self.getitem_fork(st, o, v, kv)
            if v.default is not None: return self.dict_default(st, o, k)
            return [(st, Exc('KeyError'))]
        if isinstance(v, DictV): return self.getitem_dict(st, o, v, k)
        if isinstance(v, ObjV): return self.call_method(st, o, '__getitem__', [k], {})
        if isinstance(v, P) and v.ty == STR:
            h = self.methods[('str', '__getitem__')]
            return self.norm(st, h(self, st, o, [k], {}))
        if isinstance(v, OptV):
            out = []
            for s, b in self.split(st, v.isnone):
                if b: out.append((s, Exc('TypeError', 'None is not subscriptable')))
                else: out += self.getitem(s, v.val, k)
            return out
        h = self.methods.get((self.kind(v), '__getitem__'))
        if h: return self.norm(st, h(self, st, o, [k], {}))
        raise Unsupported('subscript of %r' % (v,))

    def getitem_fork(self, st, o, v, kv):
        out = []
        rest = st
        for key, x in v.d.items():
            hit = None
            for s, b in self.split(rest, eqv(pykey(key), kv)):
                if b: out.append((s, x))
                else: hit = s
            if hit is None: return out
            rest = hit
        out.append((rest, Exc('KeyError')))
        return out

    def getitem_dict(self, st, o, v, k):
        if v.k is None:
            if v.default is not None: return self.dict_default(st, o, k)
            return [(st, Exc('KeyError'))]
        key = self.key(st, k, v.k)
        out = []
        for s, b in self.split(st, v.dom(key)):
            if b: out.append((s, self.handle(s, o, 'key', key, v.val(key))))
            elif v.default is not None: out += self.dict_default(s, o, k)
            else: out.append((s, Exc('KeyError')))
        return out

    def dict_default(self, st, o, k):
        v = self.val(st, o)
        def f(s, d):
            return self.bind(self.setitem(s, o, k, d), lambda s2, _: self.getitem(s2, o, k))
        return self.bind(self.call(st, v.default, [], {}), f)

    def getslice(self, st, o, v, k):
        if not isinstance(k.step, NoneV) and not (is_conc(k.step) and conc(k.step) == 1):
            if is_conc(k.step) and conc(k.step) == -1 and isinstance(k.lo, NoneV) and isinstance(k.hi, NoneV) and isinstance(v, ListV):
                if v.items is not None: return [(st, self.alloc(st, clist([self.snap(st, x) if False else x for x in reversed(v.items)])))]
                return [(st, self.alloc(st, ListV(v.n, lambda i: v.get(v.n - 1 - i), v.el)))]
            raise Unsupported('slice step')
        n = v.n if isinstance(v, ListV) else z3.IntVal(len(v.items))
        def clamp(x, dflt):
            x = self.val(st, x)
            if isinstance(x, NoneV): return dflt
            if isinstance(x, OptV): raise Unsupported('slice bound may be None')
            t = to_int(x.t)
            c = int_value(t)
            if c is not None and c >= 0: return z3.If(t > n, n, t)
            return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        lo, hi = z3.simplify(clamp(k.lo, z3.IntVal(0))), z3.simplify(clamp(k.hi, n))
        cl, ch = int_value(lo), int_value(hi)
        if v.items is not None and cl is not None and ch is not None:
            its = v.items[cl:ch]
            return [(st, TupV(its) if isinstance(v, TupV) else self.alloc(st, clist(its)))]
        if isinstance(v, TupV): raise Unsupported('symbolic tuple slice')
        w = self.snap(st, v)
        m = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        if cl == 0: m = z3.simplify(hi)
        return [(st, self.alloc(st, ListV(m, lambda i: w.get(lo + i), w.el if w.el is not None else
                                          (typeof(w.items[0]) if w.items else None))))]

    def setitem(self, st, o, k, x):
        """returns [(st, None or Exc)]"""
        v = self.val(st, o)
        kv = self.val(st, k)
        if isinstance(v, CDictV):
            if is_conc(kv):
                d = dict(v.d); d[conc(kv)] = x
                self.write(st, o, CDictV(d, v.default))
                return [(st, None)]
            if v.d: v = cdict_to_dict(self.snap(st, v))
            else: v = DictV(None, None, lambda q: z3.BoolVal(False), None, None, v.default)
        if isinstance(v, DictV):
            kt = join_ty(v.k, typeof(self.snap(st, k)))
            ks = self.key(st, k, kt)
            xs0 = self.snap(st, x)
            vt = join_ty(v.v, self.ty_lenient(xs0))
            if v.k is None:
                if vt is None: vt = self.ty_lenient(xs0)
                v = DictV(kt, vt, lambda q: z3.BoolVal(False), lambda q: coerce(xs0, vt),
                          (z3.IntVal(0), lambda i: dummy(kt), lambda q: z3.IntVal(0)), v.default)
            else: v = coerce(v, TDict(kt, vt))
            tgt = Sub(o, 'key', ks, self.epoch(st, o) + 1)
            xs = coerce(self.store_by_value(st, x, tgt), vt)
            enum = None
            if v.enum is not None:
                n, ka, ix = v.enum
                isin = v.dom(ks)
                enum = (z3.If(isin, n, n + 1),
                        lambda i: ite(z3.And(z3.Not(isin), i == n), ks, ka(i)),
                        lambda q: z3.If(z3.And(z3.Not(isin), eqv(q, ks)), n, ix(q)))
            self.write(st, o, DictV(kt, vt, lambda q: z3.Or(v.dom(q), eqv(q, ks)),
                                    lambda q: ite(eqv(q, ks), xs, v.val(q)), enum, v.default))
            self.note_overwrite(st, o, ks)
            return [(st, None)]
        if isinstance(v, ListV) and isinstance(kv, P):
            def f(s, j):
                jv = int_value(j)
                if v.items is not None and jv is not None:
                    items = list(v.items); items[jv] = x
                    self.write(s, o, clist(items))
                else:
                    w = self.snap(s, v)
                    vt = join_ty(w.el, typeof(self.snap(s, x)))
                    xs = coerce(self.store_by_value(s, x, Sub(o, 'idx', j, self.epoch(s, o) + 1)), vt)
                    self.write(s, o, ListV(w.n, lambda i: ite(i == j, xs, coerce(w.get(i), vt)), vt))
                    self.note_overwrite(s, o, I(j))
                return [(s, None)]
            return self.bind(self.norm_index(st, to_int(kv.t), v.n), f)
        if isinstance(v, ObjV):
            return [(s, r if isinstance(r, Exc) else None) for s, r in self.call_method(st, o, '__setitem__', [k, x], {})]
        h = self.methods.get((self.kind(v), '__setitem__'))
        if h:
            r = h(self, st, o, [k, x], {})
            return r if isinstance(r, list) else [(st, None)]
        raise Unsupported('item assignment on %r' % (v,))

    def ty_lenient(self, v):
        if isinstance(v, CDictV) and not v.d: return TDict(None, None, v.default)
        return typeof(v)

    def set_add(self, st, o, x):
        v = self.val(st, o)
        xs = self.snap(st, x)
        kt = join_ty(v.k, typeof(xs))
        if v.k is None: v = SetV(kt, lambda q: z3.BoolVal(False), (z3.IntVal(0), lambda i: dummy(kt), lambda q: z3.IntVal(0)))
        v = coerce(v, TSet(kt))
        xs = coerce(xs, kt)
        enum = None
        if v.enum is not None:
            n, ka, ix = v.enum
            isin = v.dom(xs)
            enum = (z3.If(isin, n, n + 1), lambda i: ite(z3.And(z3.Not(isin), i == n), xs, ka(i)),
                    lambda q: z3.If(z3.And(z3.Not(isin), eqv(q, xs)), n, ix(q)))
        self.write(st, o, SetV(kt, lambda q: z3.Or(v.dom(q), eqv(q, xs)), enum))

    def cell_of(self, st, o):
        """the cell an object lives in (None: it is stored inside another object)"""
        while isinstance(o, Ref) and isinstance(st.heap[o.cell], Redirect): o = st.heap[o.cell].to
        return o.cell if isinstance(o, Ref) else None

    def list_append(self, st, o, x):
        v = self.val(st, o)
        m = self.maxlen.get(self.cell_of(st, o))
        if m is not None: return self.deque_append(st, o, v, m, x)
        if v.items is not None:
            self.write(st, o, clist(v.items + [x]) if True else None)
            return
        xs0 = self.snap(st, x)
        el = join_ty(v.el, self.ty_lenient(xs0))
        xs = coerce(self.store_by_value(st, x, Sub(o, 'idx', v.n, self.epoch(st, o))), el)
        self.write(st, o, ListV(v.n + 1, lambda i: ite(i == v.n, xs, coerce(v.get(i), el)), el))

    def deque_append(self, st, o, v, m, x):
        """append to a deque of bounded length: the first item is dropped when it is full"""
        if v.items is not None and v.items: raise Unsupported('deque with concrete items')
        xs = self.snap(st, x)
        el = join_ty(v.el, typeof(xs))
        xs = coerce(xs, el)
        old = coerce(v, TList(el)) if v.items is None else None
        if self.known(st, v.n == m) is True:
            n, g = v.n, (lambda i: ite(i == v.n - 1, xs, old.get(i + 1)))
        elif self.known(st, v.n < m) is True:
            n, g = v.n + 1, (lambda i: ite(i == v.n, xs, old.get(i)) if old is not None else xs)
        else:
            full = v.n >= m
            n = z3.If(full, v.n, v.n + 1)
            g = (lambda i: ite(i == n - 1, xs, old.get(z3.If(full, i + 1, i)))) if old is not None else (lambda i: xs)
        self.write(st, o, ListV(n, g, el))
        self.note_overwrite(st, o, None)

    # ------------------------------------------------------------------ calls in source
    def ev_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            if e.args:
                fr = st.frame
                r = self.ev(e.args[1], st)[0][1] if len(e.args) > 1 else st.env[fr.node.args.args[0].arg]
                c = self.ev(e.args[0], st)[0][1]
                cq = c.qual if isinstance(c, ConcV) and c.kind == 'class' else fr.cls
                return [(st, ConcV('super', cls=cq, recv=r))]
            fr = st.frame
            return [(st, ConcV('super', cls=fr.cls, recv=st.env[fr.node.args.args[0].arg]))]
        def f(s, fn):
            if isinstance(fn, ConcV) and fn.kind == 'ignored': return [(s, fn)]
            if isinstance(fn, ConcV) and fn.kind == 'builtin' and fn.name in ('print',): return [(s, NONEV)]
            exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            def g(s2, vs):
                args, kw = [], {}
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        iv = self.iterview(s2, v)
                        if iv.items is None: raise Unsupported('star argument of symbolic length')
                        args += iv.items
                    else: args.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        d = self.val(s2, v)
                        if not isinstance(d, CDictV): raise Unsupported('** argument')
                        kw.update(d.d)
                    else: kw[k.arg] = v
                return self.call(s2, fn, args, kw)
            return self.bind(self.ev_list(exprs, s), g)
        return self.bind(self.ev(e.func, st), f)

    # comprehensions are loops appending to an accumulator
    def _comp(self, e, st, acc, emit):
        gens = e.generators
        def build(k):
            if k == len(gens): return emit
            g = gens[k]
            body = build(k + 1)
            for c in reversed(g.ifs): body = [ast.If(test=c, body=body, orelse=[])]
            return [ast.For(target=g.target, iter=g.iter, body=body, orelse=[], lineno=getattr(e, 'lineno', 0))]
        stmts = build(0)
        saved = dict(st.env)
        names = set(n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name))
        st.env = dict(st.env)
        st.env['__acc__'] = self.alloc(st, acc)
        ref = st.env['__acc__']
        # inner comprehensions reuse the name: qualify by depth
        out = []
        for oc, s in self.exec_block(stmts, st):
            env = dict(s.env)
            r = env.get('__acc__')
            for nme in names | {'__acc__'}:
                if nme in saved: env[nme] = saved[nme]
                else: env.pop(nme, None)
            s.env = env
            if oc[0] == 'raise': out.append((s, oc[1]))
            else: out.append((s, ref))
        return out

    def ev_ListComp(self, e, st):
        emit = [ast.Expr(value=_PyCall('append', [ast.Name(id='__acc__', ctx=ast.Load()), e.elt]))]
        return self._comp(e, st, clist([]), emit)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, st):
        emit = [ast.Expr(value=_PyCall('add', [ast.Name(id='__acc__', ctx=ast.Load()), e.elt]))]
        return self._comp(e, st, SetV(None, lambda k: z3.BoolVal(False)), emit)

    def ev_DictComp(self, e, st):
        emit = [ast.Expr(value=_PyCall('set', [ast.Name(id='__acc__', ctx=ast.Load()), e.key, e.value]))]
        return self._comp(e, st, CDictV({}), emit)

    def ev__PyCall(self, e, st):
        accname = '__acc__'
        acc = st.env['__acc__']
        # evaluating the element may itself run comprehensions that rebind __acc__: they restore it
        def f(s, vs):
            vs = vs[1:]
            if e.op == 'append': self.list_append(s, acc, vs[0]); return [(s, NONEV)]
            if e.op == 'add': self.set_add(s, acc, vs[0]); return [(s, NONEV)]
            return [(s2, r if isinstance(r, Exc) else NONEV) for s2, r in self.setitem(s, acc, vs[0], vs[1])]
        return self.bind(self.ev_list(e.args, st), f)

    def ev_Yield(self, e, st):
        def f(s, v):
            self.list_append(s, s.env['__yield__'], v)
            return [(s, NONEV)]
        return self.bind(self.ev(e.value, st), f) if e.value is not None else f(st, NONEV)

    def ev_Starred(self, e, st):
        raise Unsupported('starred')

    def ev_NamedExpr(self, e, st):
        def f(s, v):
            s.env[e.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(e.value, st), f)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        live = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in live:
                for oc, s2 in self.exec_stmt(stmt, s):
                    if oc[0] == 'next': nxt.append(s2)
                    else: done.append((oc, s2))
            live = nxt
            if len(live) > 400: raise Unsupported('too many paths')
        return [(('next',), s) for s in live] + done

    def exec_stmt(self, n, st):
        self.tick()
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(n).__name__)
        return m(n, st)

    def after(self, rs, f=None):
        """expression results -> statement outcomes"""
        out = []
        for s, v in rs:
            if isinstance(v, Exc): out.append((('raise', v), s))
            elif f is None: out.append((('next',), s))
            else: out += f(s, v)
        return out

    def st_Pass(self, n, st): return [(('next',), st)]
    def st_Break(self, n, st): return [(('break',), st)]
    def st_Continue(self, n, st): return [(('continue',), st)]
    def st_Global(self, n, st): raise Unsupported('global statement')
    def st_Import(self, n, st):
        for a in n.names: st.env[(a.asname or a.name).split('.')[0]] = self.entry(st, self.repo._mod(a.name if a.asname else a.name.split('.')[0]))
        return [(('next',), st)]
    def st_ImportFrom(self, n, st):
        for a in n.names:
            base = n.module or ''
            st.env[a.asname or a.name] = ConcV('ext', path=base + '.' + a.name)
            if n.level or base in self.repo.mods:
                for m, t in self.repo.mods.items():
                    if m.endswith(base) and a.name in self.repo.names(m):
                        st.env[a.asname or a.name] = self.entry(st, self.repo.names(m)[a.name])
        return [(('next',), st)]

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant): return [(('next',), st)]
        return self.after(self.ev(n.value, st))

    def st_Return(self, n, st):
        if n.value is None: return [(('return', NONEV), st)]
        return self.after(self.ev(n.value, st), lambda s, v: [(('return', v), s)])

    def st_Assert(self, n, st):
        def f(s, v):
            return [((('next',) if b else ('raise', Exc('AssertionError'))), s2) for s2, b in self.truth_split(s, v)]
        return self.after(self.ev(n.test, st), f)

    def st_Raise(self, n, st):
        if n.exc is None: return [(('raise', st.ghost.get('exc', Exc('Exception'))), st)]
        e = n.exc
        nm = e.func if isinstance(e, ast.Call) else e
        if isinstance(nm, ast.Name):
            if nm.id in st.env and isinstance(st.env[nm.id], Exc): return [(('raise', st.env[nm.id]), st)]
            return [(('raise', Exc(nm.id)), st)]
        if isinstance(nm, ast.Attribute): return [(('raise', Exc(nm.attr)), st)]
        raise Unsupported('raise')

    def st_FunctionDef(self, n, st):
        st.env[n.name] = ConcV('func', mod=st.frame.mod, node=n, cls=None, closure=st.env)
        return [(('next',), st)]

    def st_If(self, n, st):
        def f(s, v):
            out = []
            for s2, b in self.truth_split(s, v):
                if isinstance(b, Exc): out.append((('raise', b), s2))
                else: out += self.exec_block(n.body if b else n.orelse, s2)
            return out
        return self.after(self.ev(n.test, st), f)

    def st_Assign(self, n, st):
        def f(s, v):
            states = [(('next',), s)]
            for t in n.targets:
                nx = []
                for oc, s1 in states:
                    nx += self.assign(t, v, s1) if oc[0] == 'next' else [(oc, s1)]
                states = nx
            return states
        return self.after(self.ev(n.value, st), f)

    def st_AnnAssign(self, n, st):
        if n.value is None: return [(('next',), st)]
        return self.after(self.ev(n.value, st), lambda s, v: self.assign(n.target, v, s))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [(('next',), st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            w = self.val(st, v)
            if isinstance(w, OptV):
                out = []
                for s, b in self.split(st, w.isnone):
                    out += [(('raise', Exc('TypeError', 'cannot unpack None')), s)] if b else self.assign(t, w.val, s)
                return out
            iv = self.iterview(st, v)
            if iv.items is None:
                out = []
                k = len(t.elts)
                for s, ok in self.split(st, iv.n == k):
                    if not ok: out.append((('raise', Exc('ValueError', 'unpack')), s))
                    else: out += self.assign_all(t.elts, [iv.get(z3.IntVal(j)) for j in range(k)], s)
                return out
            if len(iv.items) != len(t.elts): return [(('raise', Exc('ValueError', 'unpack')), st)]
            return self.assign_all(t.elts, iv.items, st)
        if isinstance(t, ast.Attribute):
            def f(s, o):
                c = self.val(s, o)
                if isinstance(c, ConcV) and c.kind == 'ignored': return [(('next',), s)]
                if not isinstance(c, ObjV):
                    h = self.methods.get((self.kind(c), '__setattr__'))
                    if h: 
                        h(self, s, o, [S(t.attr), v], {})
                        return [(('next',), s)]
                    raise Unsupported('attribute assignment on %r' % (c,))
                self.set_field(s, o, t.attr, v)
                return [(('next',), s)]
            return self.after(self.ev(t.value, st), f)
        if isinstance(t, ast.Subscript):
            def f(s, o):
                return self.after(self.ev(t.slice, s), lambda s2, k: [
                    ((('raise', r) if isinstance(r, Exc) else ('next',)), s3) for s3, r in self.setitem(s2, o, k, v)])
            return self.after(self.ev(t.value, st), f)
        raise Unsupported('assignment target')

    def set_field(self, st, o, name, v):
        c = self.val(st, o)
        r = o
        if isinstance(o, Ref) and not isinstance(st.heap[o.cell], Redirect):
            st.heap[o.cell] = ObjV(c.cls, dict(c.fields, **{name: v}))
        else:
            x = self.store_by_value(st, v, Sub(o, 'field', name, self.epoch(st, o)))
            self.write(st, o, ObjV(c.cls, dict(c.fields, **{name: x})))

    def assign_all(self, ts, vs, st):
        states = [(('next',), st)]
        for t, v in zip(ts, vs):
            nx = []
            for oc, s in states:
                nx += self.assign(t, v, s) if oc[0] == 'next' else [(oc, s)]
            states = nx
        return states

    def st_AugAssign(self, n, st):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            rs = self.bind(self.ev(ast.Name(id=t.id, ctx=ast.Load()), st),
                           lambda s, a: self.bind(self.ev(n.value, s), lambda s2, b: self.augop(s2, op, a, b)))
            return self.after(rs, lambda s, v: self.assign(t, v, s))
        if isinstance(t, ast.Attribute):
            def f(s, o):
                return self.after(self.bind(self.getattr(s, o, t.attr), lambda s1, a: self.bind(
                    self.ev(n.value, s1), lambda s2, b: self.augop(s2, op, a, b))),
                    lambda s3, v: (self.set_field(s3, o, t.attr, v), [(('next',), s3)])[1])
            return self.after(self.ev(t.value, st), f)
        if isinstance(t, ast.Subscript):
            def f(s, o):
                def g(s1, k):
                    return self.after(self.bind(self.getitem(s1, o, k), lambda s2, a: self.bind(
                        self.ev(n.value, s2), lambda s3, b: self.augop(s3, op, a, b))),
                        lambda s4, v: [((('raise', r) if isinstance(r, Exc) else ('next',)), s5)
                                       for s5, r in self.setitem(s4, o, k, v)])
                return self.after(self.ev(t.slice, s), g)
            return self.after(self.ev(t.value, st), f)
        raise Unsupported('augmented assignment')

    def augop(self, st, op, a, b):
        va = self.val(st, a)
        if isinstance(va, ListV) and op == 'Add':      # in place
            return [(s, x if isinstance(x, Exc) else a) for s, x in self.norm(st, self.methods[('list', 'extend')](self, st, a, [b], {}))]
        if isinstance(va, SetV) and op == 'BitOr':
            return [(s, x if isinstance(x, Exc) else a) for s, x in self.norm(st, self.methods[('set', 'update')](self, st, a, [b], {}))]
        if isinstance(va, ArrV):
            h = self.methods.get(('arr', 'augop'))
            if h: return self.norm(st, h(self, st, op, a, b))
        return self.binop(st, op, a, b)

    def st_Delete(self, n, st):
        states = [(('next',), st)]
        for t in n.targets:
            nx = []
            for oc, s in states:
                if oc[0] != 'next': nx.append((oc, s)); continue
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None); nx.append((('next',), s))
                elif isinstance(t, ast.Subscript):
                    nx += self.after(self.bind(self.ev(t.value, s), lambda s1, o: self.bind(
                        self.ev(t.slice, s1), lambda s2, k: self.norm(s2, self.methods[(self.kind(self.val(s2, o)), '__delitem__')](self, s2, o, [k], {})))))
                elif isinstance(t, ast.Attribute):
                    def gone(s1, o, name=t.attr):
                        c = self.val(s1, o)
                        if isinstance(c, ConcV) and c.kind == 'ignored': return [(('next',), s1)]
                        if isinstance(c, ObjV):
                            if name not in c.fields: return [(('raise', Exc('AttributeError', name)), s1)]
                            self.write(s1, o, ObjV(c.cls, {k: x for k, x in c.fields.items() if k != name}))
                            return [(('next',), s1)]
                        h = self.methods.get((self.kind(c), '__delattr__'))
                        if not h: raise Unsupported('attribute deleted of %r' % (c,))
                        h(self, s1, o, [S(name)], {})
                        return [(('next',), s1)]
                    nx += self.after(self.ev(t.value, s), gone)
                else: raise Unsupported('del')
            states = nx
        return states

    def st_With(self, n, st):
        states = [(('next',), st)]
        for item in n.items:
            nx = []
            for oc, s in states:
                if oc[0] != 'next': nx.append((oc, s)); continue
                def f(s1, v):
                    if item.optional_vars is not None: return self.assign(item.optional_vars, v, s1)
                    return [(('next',), s1)]
                nx += self.after(self.ev(item.context_expr, s), f)
            states = nx
        out = []
        for oc, s in states:
            if oc[0] != 'next': out.append((oc, s))
            else: out += self.exec_block(n.body, s)
        return out

    def st_Try(self, n, st):
        outs = []
        for oc, s in self.exec_block(n.body, st):
            if oc[0] == 'raise':
                handled = False
                for h in n.handlers:
                    if self.exc_match(h.type, oc[1], s):
                        if h.name: s.env[h.name] = oc[1]
                        s.ghost['exc'] = oc[1]
                        outs += self.exec_block(h.body, s)
                        handled = True
                        break
                if not handled: outs.append((oc, s))
            elif oc[0] == 'next' and n.orelse: outs += self.exec_block(n.orelse, s)
            else: outs.append((oc, s))
        if n.finalbody:
            res = []
            for oc, s in outs:
                for oc2, s2 in self.exec_block(n.finalbody, s):
                    res.append((oc if oc2[0] == 'next' else oc2, s2))
            return res
        return outs

    def exc_match(self, t, exc, st):
        if t is None: return True
        names = [t] if not isinstance(t, ast.Tuple) else t.elts
        for x in names:
            nm = x.id if isinstance(x, ast.Name) else x.attr
            if nm in (exc.name, 'Exception', 'BaseException') or nm in EXC_PARENTS.get(exc.name, ()): return True
        return False

    # ------------------------------------------------------------------ loops
    def st_For(self, n, st):
        def f(s, it):
            iv = self.iterview(s, it)
            return self.do_loop(n, s, iv)
        return self.after(self.ev(n.iter, st), f)

    def loop_inv(self, n, st):
        fr = st.frame
        if fr is None: return None
        invs = self.invs.get(fr.qual)
        if not invs: return None
        return invs.get(loop_path(fr.node, n))

    def do_loop(self, n, st, iv):
        if iv.items is not None:
            if len(iv.items) > 64: raise Unsupported('long concrete loop')
            live, out = [st], []
            for x in iv.items:
                nx = []
                for s in live:
                    for oc, s1 in self.assign(n.target, x, s):
                        if oc[0] != 'next': out.append((oc, s1)); continue
                        for oc2, s2 in self.exec_block(n.body, s1):
                            if oc2[0] in ('next', 'continue'): nx.append(s2)
                            elif oc2[0] == 'break': out.append((('next',), s2))
                            else: out.append((oc2, s2))
                live = nx
            for s in live:
                out += self.exec_block(n.orelse, s) if n.orelse else [(('next',), s)]
            return out
        from . import loops
        def body(s, elem):
            r = []
            for oc, s1 in self.assign(n.target, elem, s):
                r += self.exec_block(n.body, s1) if oc[0] == 'next' else [(oc, s1)]
            return r
        inv = self.loop_inv(n, st)
        if inv is not None:
            outs = loops.cut_loop(self, st, iv, body, inv, n)
        elif self.generic:
            outs = loops.summarise_or_cut(self, st, iv, body, n)
        else:
            outs = loops.summarise(self, st, iv, body, n)
        res = []
        for oc, s in outs:
            if oc[0] == 'exhausted': res += self.exec_block(n.orelse, s) if n.orelse else [(('next',), s)]
            elif oc[0] == 'break': res.append((('next',), s))
            else: res.append((oc, s))
        return res

    def st_While(self, n, st):
        from . import loops
        return loops.while_loop(self, n, st)


class _PyCall(ast.expr):
    _fields = ('args',)
    def __init__(self, op, args):
        self.op, self.args = op, args


def has_quant(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        stack.extend(x.children())
    return False


def has_ite(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE,
                                                 z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return True
        stack.extend(x.children())
    return False


def unshift(v, body, term):
    """if v occurs in the pattern term only as v + c, rename so that the pattern is over a plain variable"""
    occ = []
    def go(x):
        if x.eq(v): return False
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and mentions_const(x, v):
            lin, sg = z3.simplify(x - v), 1
            if mentions_const(lin, v): lin, sg = z3.simplify(x + v), -1
            if mentions_const(lin, v): return False
            if not any(x.eq(o) for o, _, _ in occ): occ.append((x, lin, sg))
            return True
        return all(go(c) for c in x.children() if mentions_const(c, v))
    if go(term) and len(occ) == 1:
        x, c, sg = occ[0]
        u = z3.FreshConst(z3.IntSort(), 'u')
        return u, z3.simplify(z3.substitute(body, (v, u - c if sg > 0 else c - u))) if sg < 0 else z3.substitute(body, (v, u - c)), z3.substitute(term, (x, u))
    return v, body, term


def forall_pat(vs, body, terms):
    """ForAll with the given pattern terms when they are usable as patterns"""
    try:
        if len(vs) == 1 and len(terms) == 1 and z3.is_app(terms[0]):
            v, body, t = unshift(vs[0], body, terms[0])
            vs, terms = [v], [t]
        terms = [t for t in terms if not has_ite(t)]
        good = []
        for t in terms:
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: good.append(t)
        if good and all(any(mentions_const(g, v) for g in good) for v in vs):
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*good)] if len(good) > 1 else good)
    except z3.Z3Exception:
        pass
    return z3.ForAll(vs, body)


def mentions_const(t, c):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(c): return True
        stack.extend(x.children())
    return False


def walk_fn(node):
    """walk a function body without entering nested functions"""
    stack = list(node.body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        stack.extend(ast.iter_child_nodes(x))


_assigned = {}


def assigned_names(node):
    k = id(node)
    if k not in _assigned:
        s = set()
        if hasattr(node, 'body') and isinstance(node.body, list):
            for x in walk_fn(node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): s.add(x.id)
        _assigned[k] = (s, node)
    return _assigned[k][0]


def loop_path(fn, loop):
    """ordinal of a loop among the for/while statements of a function, in source order"""
    ls = [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While))]
    ls.sort(key=lambda x: (x.lineno, x.col_offset))
    for k, x in enumerate(ls):
        if x is loop: return k
    return None
