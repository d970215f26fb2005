"""Contracts, obligations and their discharge."""
import importlib
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from .values import *
from . import values as V
from .engine import *
from . import engine as E

CONTRACTS = {}      # property -> list of Contract
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Contract(object):
    def __init__(self, prop, target, fn, param, label, budget):
        self.prop, self.target, self.fn, self.param, self.label, self.budget = prop, target, fn, param, label, budget
    @property
    def name(self): return '%s%s' % (self.label, '' if self.param is None else '[%s]' % (self.param,))


def contract(prop, target, params=(None,), label=None, budget=350):
    """register a contract: target = 'module:function' the contract is about (documentation and evidence)"""
    def deco(fn):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            for q in params:
                CONTRACTS.setdefault(p, []).append(Contract(p, target, fn, q, label or target.split(':')[1], budget))
        return fn
    return deco


def fn_oblige(eng, st, label, goal):
    if eng.mute: return
    for k, g in enumerate(split_goal(goal)):
        eng.obligs.append((label, st.pc, st.facts, g))


def split_goal(g):
    if z3.is_and(g):
        r = []
        for c in g.children(): r += split_goal(c)
        return r
    return [g]


Engine.oblige = fn_oblige


class T(object):
    """the context a contract script works in"""
    def __init__(self, contract):
        self.c = contract
        self.eng = Engine()
        self.st = St()
        self.posts = []        # states that reached a postcondition
        self.functions = {contract.target}

    # ---- inputs
    def sym(self, ty, name):
        return Family(ty, name, []).at([])

    def new(self, ty, name, st=None):
        """symbolic input boxed on the heap; object fields get cells of their own"""
        v = ty if isinstance(ty, SV) else self.sym(ty, name)
        return self.box(v, st)

    def box(self, v, st=None):
        st = st or self.st
        if isinstance(v, ObjV):
            return self.eng.alloc(st, ObjV(v.cls, {k: self.box(x, st) for k, x in v.fields.items()}))
        if isinstance(v, CDictV):
            return self.eng.alloc(st, CDictV({k: self.box(x, st) for k, x in v.d.items()}, v.default))
        if isinstance(v, ListV) and v.items is not None:
            return self.eng.alloc(st, clist([self.box(x, st) for x in v.items]))
        return self.eng.box(st, v)

    def obj(self, cls, **fields):
        return self.eng.alloc(self.st, ObjV(cls, {k: (self.box(x) if not isinstance(x, (Ref, Sub)) else x) for k, x in fields.items()}))

    def assume(self, *fs): self.eng.assume(self.st, *fs)
    def pre(self, f): self.st.pc = self.st.pc + (f,)

    def strcall(self, s, name, *args):
        """result of a pure string method, as the engine models it"""
        r = self.eng.norm(self.st, self.eng.methods[('str', name)](self.eng, self.st, s, list(args), {}))[0][1]
        return self.eng.snap(self.st, r)

    def snap(self, sv, st=None): return self.eng.snap(st or self.st, sv)

    # ---- run
    def call(self, spec, args=(), kwargs=None, st=None):
        eng = self.eng
        mod, node, cls = eng.repo.func(spec)
        self.functions.add(spec)
        fn = ConcV('func', mod=mod, node=node, cls=cls, closure=None, force_inline=True)
        st = (st or self.st).fork()
        st.frame = Frame(mod, node, cls, 0)
        decs = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
        args = list(args)
        if 'classmethod' in decs and not (args and isinstance(args[0], ConcV)):
            args = [ConcV('class', qual=cls)] + args
        return eng.call(st, fn, args, dict(kwargs or {}))

    def construct(self, qual, args=(), kwargs=None, st=None):
        st = (st or self.st).fork()
        return self.eng.construct(st, qual, list(args), dict(kwargs or {}))

    def normal(self, outs, raises=None, label=''):
        """the normal outcomes; a reachable exception must be allowed: raises = {name: formula}"""
        res = []
        n = 0
        for s, r in outs:
            if isinstance(r, Exc):
                allowed = (raises or {}).get(r.name, (raises or {}).get('*'))
                if allowed is None: allowed = z3.BoolVal(False)
                elif callable(allowed): allowed = allowed(s)
                elif allowed is True: allowed = z3.BoolVal(True)
                self.eng.oblige(s, '%sdoes not raise %s%s' % (label, r.name, (' (%s)' % r.msg) if r.msg and len(str(r.msg)) < 40 else ''), allowed)
            else: res.append((s, r))
        return res

    def post(self, st, label, goal):
        self.posts.append(st)
        self.eng.oblige(st, label, goal)

    def lemma(self, st, label, goal):
        """a named step of the argument: proved like a postcondition, then available to the ones that follow"""
        self.post(st, label, goal)
        self.eng.assume(st, goal)

    def unchanged(self, st, label, *refs):
        """frame: the content of the references is what it was in the pre-state"""
        for r in refs:
            a, b = self.eng.snap(self.st, r), self.eng.snap(st, r)
            if a is b: self.post(st, label, z3.BoolVal(True))
            else: self.post(st, label, eqv(b, a))

    def cells(self, st, sv, seen=None):
        """mutable cells reachable from a value"""
        seen = set() if seen is None else seen
        if isinstance(sv, Sub): return self.cells(st, self.eng.root(st, sv), seen)
        if isinstance(sv, Ref):
            if sv.cell in seen: return seen
            seen.add(sv.cell)
            v = st.heap[sv.cell]
            if isinstance(v, Redirect): return self.cells(st, v.to, seen)
            return self.cells(st, v, seen)
        if isinstance(sv, TupV): 
            for x in sv.items: self.cells(st, x, seen)
        elif isinstance(sv, ListV) and sv.items is not None:
            for x in sv.items: self.cells(st, x, seen)
        elif isinstance(sv, CDictV):
            for x in sv.d.values(): self.cells(st, x, seen)
        elif isinstance(sv, ObjV):
            for x in sv.fields.values(): self.cells(st, x, seen)
        elif isinstance(sv, OptV): self.cells(st, sv.val, seen)
        return seen

    def mutable_cells(self, st, sv):
        return {c for c in self.cells(st, sv)}

    def fresh_from(self, st, label, a, *bs):
        ca = self.mutable_cells(st, a)
        shared = set()
        for b in bs: shared |= ca & self.mutable_cells(st, b)
        self.post(st, label, z3.BoolVal(not shared))

    def sort_invariant(self): pass


def forall(tys, f, pats=None):
    """ForAll over fresh key values: tys list of types; f gets SVs, returns formula"""
    ks, cs = [], []
    for t in tys:
        k, c = keyconst(t)
        ks.append(k); cs += c
    return z3.ForAll(cs, f(*ks))


def foralli(n, f):
    i = z3.FreshConst(z3.IntSort(), 'i')
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(i)))


def exists(tys, f):
    ks, cs = [], []
    for t in tys:
        k, c = keyconst(t)
        ks.append(k); cs += c
    return z3.Exists(cs, f(*ks))


def mem(lst, x):
    """x occurs in list value"""
    if lst.items is not None: return z3.Or(*[eqv(y, x) for y in lst.items]) if lst.items else z3.BoolVal(False)
    i = z3.FreshConst(z3.IntSort(), 'i')
    return z3.Exists([i], z3.And(0 <= i, i < lst.n, eqv(lst.get(i), x)))


# ------------------------------------------------------------------------------------------- discharge
def strip_ext(theory):
    return theory


def prove(eng, pc, facts, goal, timeout):
    """(status, backend, seconds, detail)"""
    t0 = time.time()
    if z3.is_true(z3.simplify(goal)): return 'proved', 'simplify', 0.0, ''
    th = eng.theory()
    detail = ''
    base = {}
    ematch = {'smt.mbqi': False, 'smt.qi.eager_threshold': 20.0}
    short = 0.5 / timeout              # a bad start of the solver costs little: several short attempts first
    plan = [(base, short), (ematch, short), ({'smt.random_seed': 1}, short), ({'smt.random_seed': 4}, short), (dict(ematch, **{'smt.random_seed': 2}), short),
            (base, 0.12), (ematch, 0.12), ('cvc5', 0.25), (dict(ematch, **{'smt.random_seed': 3}), 0.2),
            ({'smt.random_seed': 7, 'smt.arith.solver': 2}, 0.2), (dict(ematch, **{'smt.random_seed': 11, 'smt.qi.eager_threshold': 100.0}), 0.2),
            (dict(base, **{'smt.random_seed': 5}), 0.3)]
    smt = None
    for opts, share in plan:
        if opts == 'cvc5':
            if smt is not None and run_cvc5(smt, timeout * share) == 'unsat': return 'proved', 'cvc5', time.time() - t0, ''
            continue
        s = z3.Solver()
        for o, v in opts.items():
            try: s.set(o, v)
            except z3.Z3Exception: pass
        E.limit(s, timeout * share)
        for a in th: s.add(a)
        for f, _ in facts: s.add(f)
        for c in pc: s.add(c)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return 'proved', 'z3', time.time() - t0, ''
        if r == z3.sat:
            try: detail = str(s.model())[:3000]
            except z3.Z3Exception: detail = ''
            return 'refuted', 'z3', time.time() - t0, detail
        if smt is None: smt = s.to_smt2()
    return 'unknown', 'z3+cvc5', time.time() - t0, 'undecided within %.0f s' % (time.time() - t0)


def run_cvc5(smt, to):
    try:
        import cvc5
    except ImportError:
        return 'none'
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f: f.write('(set-logic ALL)\n' + smt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(to * 1000), path], capture_output=True, text=True, timeout=to + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'none'
    except Exception:
        return 'none'
    finally:
        os.unlink(path)


def run_contract(c, timeout=8.0, verbose=False):
    t0 = time.time()
    res = {'contract': c.name, 'target': c.target, 'property': c.prop, 'obligations': [], 'error': None, 'inlined': [],
           'external': [], 'vacuous': False, 'functions': []}
    eng = None
    try:
        t = T(c)
        eng = t.eng
        c0 = time.process_time()                # processor time: another program's load must not decide the outcome
        eng.deadline = c0 + c.budget
        try:
            c.fn(t) if c.param is None else c.fn(t, c.param)
        except Unsupported as e:
            res['error'] = 'unsupported: %s' % e
        except AttributeError as e:
            # a field or variable the contract talks about no longer exists
            res['error'] = 'contract cannot be applied: %s: %s' % (type(e).__name__, e)
            res['trace'] = traceback.format_exc()[-1500:]
        except (KeyError, IndexError, TypeError, z3.Z3Exception, RecursionError, AssertionError) as e:
            res['error'] = 'contract cannot be applied: %s: %s' % (type(e).__name__, str(e)[:200])
            res['trace'] = traceback.format_exc()[-1500:]
        res['functions'] = sorted(t.functions)
        res['inlined'] = sorted(eng.inlined)
        res['external'] = sorted(eng.used_ext)
        counts = {}
        groups = {}
        for label, pc, facts, goal in eng.obligs:
            groups.setdefault(label, []).append((pc, facts, goal))
        deadline = c0 + c.budget * 1.5
        for label, gs in groups.items():
            status, backend, secs, detail, n = 'proved', set(), 0.0, '', 0
            for pc, facts, goal in gs:
                n += 1
                if time.process_time() > deadline:
                    st_, be, se, de = 'unknown', 'none', 0.0, 'time limit of the contract'
                else:
                    st_, be, se, de = prove(eng, pc, facts, goal, timeout)
                backend.add(be); secs += se
                res['obligations'].append({'name': '%s/%s' % (c.name, label), 'status': st_, 'backend': be, 'seconds': round(se, 3), 'detail': de})
                if verbose and st_ != 'proved':
                    print('   ', st_, label, '\n      ', str(z3.simplify(goal))[:600])
                if st_ != 'proved' and os.environ.get('PYDV_DUMP'):
                    s = z3.Solver()
                    for a in eng.theory(): s.add(a)
                    for f, _ in facts: s.add(f)
                    for x in pc: s.add(x)
                    s.add(z3.Not(goal))
                    open('/tmp/w/dump.smt2', 'w').write(s.to_smt2())
        # vacuity: some state in which a postcondition was checked must not be contradictory
        if t.posts and not res['error']:
            alive = False
            for s in t.posts[:6]:
                if eng.check_valid(s, z3.BoolVal(False), 1.5) is not True: alive = True; break
            res['vacuous'] = not alive
        elif not res['error']:
            res['vacuous'] = True
        res['paths'] = eng.paths
        res['assumptions'] = sorted(eng.assumptions)
    except Exception as e:
        res['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        res['trace'] = traceback.format_exc()[-2500:]
    res['seconds'] = round(time.time() - t0, 2)
    return res


def _job(args):
    mods, prop, idx, timeout, effort = args
    E.EFFORT[0] = effort
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    sys.setrecursionlimit(20000)
    load(mods)
    return run_contract(CONTRACTS[prop][idx], timeout)


def load(mods):
    for m in mods: importlib.import_module('contracts.' + m)


def modules():
    d = os.path.join(VERIF, 'contracts')
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py') and not f.startswith('_'))


def run_property(prop, timeout=8.0, procs=8, wall=600, stop=lambda: False):
    """every contract of the property; when stop() says that a failing input is known, only a little more time is spent"""
    sys.path.insert(0, VERIF)
    mods = modules()
    load(mods)
    cs = CONTRACTS.get(prop, [])
    t0 = time.time()
    jobs = [(mods, prop, k, timeout, 1.0) for k in range(len(cs))]
    jobs.sort(key=lambda j: -cs[j[2]].budget)
    out = run_jobs(prop, cs, jobs, procs, wall, stop)
    # what stayed undecided is tried once more with more effort (a busy machine must not decide the outcome)
    again = [k for k, r in enumerate(out) if r['error'] or r['vacuous'] or any(o['status'] != 'proved' for o in r['obligations'])]
    again = [k for k in again if not any(o['status'] == 'refuted' for o in out[k]['obligations'])]
    left = wall - (time.time() - t0)
    if again and left > 60 and len(again) <= 8 and not stop():
        for k, r in zip(again, run_jobs(prop, cs, [jobs[k][:3] + (timeout * 1.5, 2.5) for k in again], min(procs, 4), left, stop)):
            r['retried'] = True
            bad = lambda r: bool(r['error']) + r['vacuous'] + sum(o['status'] != 'proved' for o in r['obligations'])
            if bad(r) < bad(out[k]) or not out[k]['obligations']: out[k] = r
    return out


def run_jobs(prop, cs, jobs, procs, wall, stop=lambda: False):
    out = []
    if not jobs: return out
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(min(procs, len(jobs)), maxtasksperchild=1)
    try:
        rs = [(j, pool.apply_async(_job, (j,))) for j in jobs]
        end = time.time() + wall
        for j, r in rs:
            try:
                while not r.ready() and time.time() < end:
                    r.wait(1)
                    if stop(): end = min(end, time.time() + 45); stop = lambda: False
                out.append(r.get(1))
            except Exception as e:
                c = cs[j[2]]
                out.append({'contract': c.name, 'target': c.target, 'property': prop, 'obligations': [], 'inlined': [],
                            'external': [], 'vacuous': False, 'functions': [c.target], 'seconds': 0.0,
                            'error': 'no answer: %s' % type(e).__name__})
    finally:
        pool.terminate()
    return out


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    from pydv import task as tk
    tk.load(tk.modules())
    prop = sys.argv[1]
    sel = sys.argv[2] if len(sys.argv) > 2 else ''
    sys.setrecursionlimit(20000)
    if sel:
        for c in tk.CONTRACTS[prop]:
            if sel in c.name:
                r = tk.run_contract(c, 8.0, True)
                print(r['contract'], 'paths', r.get('paths'), 'error', r['error'], 'vacuous', r['vacuous'], r['seconds'], 's')
                if r.get('trace'): print(r['trace'])
                for o in r['obligations']: print('   ', o['status'], o['backend'], o['seconds'], o['name'], o['detail'][:300] if os.environ.get('PYDV_MODEL') else '')
    else:
        for r in tk.run_property(prop):
            bad = [o for o in r['obligations'] if o['status'] != 'proved']
            print('%-45s obl %3d bad %2d %6.1fs %s %s' % (r['contract'][:60], len(r['obligations']), len(bad), r['seconds'], 'VACUOUS' if r['vacuous'] else '', r['error'] or ''))
            if r.get('trace') and r['error'].startswith('engine'): print(r['trace'][-700:])
            for o in bad: print('     ', o['status'], o['name'], o['detail'][:100])
