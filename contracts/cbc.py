"""Contracts of nephosem.models.cbc: cleaning of candidate clusters (P22), merging and residues (P23), scores (P24)."""
import z3
from pydv.task import *

CB = 'nephosem.models.cbc'


def rng(i, n): return z3.And(0 <= i, i < n)
def fi(n='i'): return z3.FreshConst(z3.IntSort(), n)


CL = TTup(REAL, TList(STR))         # a candidate: (score, members)
FS = TFset(STR)
CS = TTup(REAL, TSet(STR))          # a cleaned candidate: (score, set of members)


def member_sets(T, l, name='M', at=lambda x: x.items[1], st=None):
    """ghost: the set of members of each cluster of a list, as frozen sets (equal exactly when the members are the same)"""
    from pydv.lib import fset_is
    eng = T.eng
    st = st or T.st
    A = z3.Function('%s!%d' % (name, uid()), z3.IntSort(), FS.sort)
    w = z3.Function('%s.at!%d' % (name, uid()), z3.IntSort(), StrSort, z3.IntSort())
    i, j, e = fi('i'), fi('j'), z3.FreshConst(StrSort, 'e')
    m = at(l.get(i))
    inn = FS.mem(A(i), e)
    ok = rng(i, l.n)
    eng.assume(st, z3.ForAll([i], z3.Implies(ok, fset_is(eng, STR)(A(i))), patterns=[A(i)]))
    if isinstance(m, SetV):
        eng.assume(st, z3.ForAll([i, e], z3.Implies(ok, inn == m.dom(P(STR, e))), patterns=[inn]))
        d = m.dom(P(STR, e))
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(z3.is_const(x) for x in d.children()):
            eng.assume(st, z3.ForAll([i, e], z3.Implies(ok, inn == d), patterns=[d]))
    else:
        eng.assume(st, z3.ForAll([i, e], z3.Implies(z3.And(ok, inn), z3.And(rng(w(i, e), m.n), m.get(w(i, e)).t == e)), patterns=[inn]))
        b = z3.Implies(z3.And(ok, rng(j, m.n)), FS.mem(A(i), m.get(j).t))
        eng.assume(st, forall_pat([i, j], b, [m.get(j).t]))
    return A


def first_index(T, s, l, A):
    """ghost: the position at which a set of members occurs first"""
    ix = z3.Function('ix!%d' % uid(), FS.sort, z3.IntSort())
    i = fi('i')
    T.eng.assume(s, z3.ForAll([i], z3.Implies(rng(i, l.n), z3.And(0 <= ix(A(i)), ix(A(i)) <= i, A(ix(A(i))) == A(i))), patterns=[A(i)]))
    return ix


def has(x, e):
    """e is a member of a cluster value"""
    return x.dom(P(STR, e)) if isinstance(x, SetV) else mem(x, P(STR, e))


def members_are(x, a):
    e = z3.FreshConst(StrSort, 'e')
    return z3.ForAll([e], has(x, e) == FS.mem(a, e))


score = lambda x: x.items[0].t


def first_only(T, s, c, A, v):
    """v lists every set of members of the clusters c once, at its first occurrence, with that occurrence's score"""
    ix = first_index(T, s, c, A)
    B = member_sets(T, v, 'B', st=s)
    T.post(s, 'every first occurrence is kept, with its score', foralli(c.n, lambda i: z3.Implies(ix(A(i)) == i, exists([INT], lambda k: z3.And(rng(k.t, v.n), B(k.t) == A(i), score(v.get(k.t)) == score(c.get(i)))))))
    T.post(s, 'nothing but first occurrences is kept', foralli(v.n, lambda k: z3.And(rng(ix(B(k)), c.n), A(ix(B(k))) == B(k), score(c.get(ix(B(k)))) == score(v.get(k)))))
    T.post(s, 'in the order of the candidates, none twice', forall([INT, INT], lambda k, k2: z3.Implies(z3.And(0 <= k.t, k.t < k2.t, k2.t < v.n), ix(B(k.t)) < ix(B(k2.t)))))


@contract('P22', CB + ':remove_duplicate')
def _(T):
    cr = T.new(TList(CL), 'clusters'); c = T.snap(cr)
    A = member_sets(T, c)
    for s, r in T.normal(T.call(CB + ':remove_duplicate', [cr])):
        first_only(T, s, c, A, T.snap(r, s))
        T.unchanged(s, 'the candidates are unchanged', cr)


@contract('P22', CB + ':inverted_index')
def _(T):
    cr = T.new(TList(CS), 'clusters'); c = T.snap(cr)
    for s, r in T.normal(T.call(CB + ':inverted_index', [cr])):
        v = T.snap(r, s)
        T.post(s, 'an element is indexed exactly when some cluster has it', forall([STR], lambda e: v.dom(e) == exists([INT], lambda i: z3.And(rng(i.t, c.n), c.get(i.t).items[1].dom(e)))))
        T.post(s, 'under every element exactly the clusters that have it', forall([STR, INT], lambda e, i: z3.Implies(v.dom(e),
               v.val(e).dom(i) == z3.And(rng(i.t, c.n), c.get(i.t).items[1].dom(e)))))
        T.unchanged(s, 'the clusters are unchanged', cr)


def index_of(T, c):
    """an inverted index of the clusters c (what inverted_index returns)"""
    v = T.new(TDict(STR, TSet(INT), 'set'), 'invidx'); d = T.snap(v)
    i, (k, kc) = fi(), keyconst(STR)
    inn = z3.And(rng(i, c.n), c.get(i).items[1].dom(k))
    T.assume(z3.ForAll([i] + kc, z3.Implies(inn, z3.And(d.dom(k), d.val(k).dom(I(i)))), patterns=[c.get(i).items[1].dom(k)]),
             z3.ForAll([i] + kc, z3.Implies(z3.And(d.dom(k), d.val(k).dom(I(i))), inn), patterns=[d.val(k).dom(I(i))]),
             forall([STR], lambda e: z3.Implies(d.dom(e), exists([INT], lambda j: z3.And(rng(j.t, c.n), c.get(j.t).items[1].dom(e))))))
    return v, d


@contract('P22', CB + ':remove_singleton')
def _(T):
    ir = T.new(TDict(STR, TSet(INT)), 'invidx'); d = T.snap(ir)
    sr = T.new(TSet(STR), 'singles'); x = T.snap(sr)
    for s, r in T.normal(T.call(CB + ':remove_singleton', [sr, ir])):
        v = T.snap(r, s)
        T.post(s, 'exactly the elements that no cluster has', forall([STR], lambda e: has(v, e.t) == z3.And(x.dom(e), z3.Not(d.dom(e)))))
        T.unchanged(s, 'the inputs are unchanged', sr, ir)


@contract('P22', CB + ':remove_superset')
def _(T):
    cr = T.new(TList(CS), 'clusters'); c = T.snap(cr)
    ir, d = index_of(T, c)
    A = member_sets(T, c)
    T.pre(foralli(c.n, lambda i: exists([STR], lambda e: c.get(i).items[1].dom(e))))
    sub, keep = subclusters(T, c, A)
    for s, r in T.normal(T.call(CB + ':remove_superset', [cr, ir])):
        v = T.snap(r, s)
        B = member_sets(T, v, 'B', st=s)
        kept_at(T, s, c, A, v, B, keep)
        T.post(s, 'every cluster without a sub-cluster is kept, with its score', foralli(c.n, lambda i: z3.Implies(keep(i), exists([INT], lambda k: z3.And(rng(k.t, v.n), B(k.t) == A(i), score(v.get(k.t)) == score(c.get(i)))))))
        T.post(s, 'nothing but clusters without a sub-cluster is kept', foralli(v.n, lambda k: exists([INT], lambda i: z3.And(rng(i.t, c.n), keep(i.t), B(k) == A(i.t), score(v.get(k)) == score(c.get(i.t))))))
        T.unchanged(s, 'the inputs are unchanged', cr, ir)


def kept_at(T, s, c, A, v, B, keep):
    """lemmas: where the kept clusters stood (the verifier's own witness, when the result is a selection of the list)"""
    k = fi('k')
    sc = z3.simplify(score(v.get(k)))
    src = z3.simplify(score(c.get(k)))
    if not (z3.is_app(sc) and sc.num_args() == 1 and sc.decl().eq(src.decl())): return
    pos = sc.arg(0)
    T.lemma(s, 'a kept cluster is one of the candidates', z3.ForAll([k], z3.Implies(rng(k, v.n), z3.And(rng(pos, c.n), B(k) == A(pos))), patterns=[B(k)]))
    T.lemma(s, 'a kept cluster has no sub-cluster', z3.ForAll([k], z3.Implies(rng(k, v.n), keep(pos)), patterns=[B(k)]))
    i = fi('i')
    # the verifier's own functions of the selection: pos(k) stands at place inv(pos(k)); c(i) says that place i is selected
    sel = [x for x in getattr(T.eng, 'selections', []) if x[0](k).eq(pos)]
    if sel:
        _, inv, m, c0 = sel[0]
        T.lemma(s, 'a cluster without a sub-cluster qualifies', z3.ForAll([i], z3.Implies(z3.And(rng(i, c.n), keep(i)), c0(i)), patterns=[keep(i)]))
        T.lemma(s, 'a cluster that qualifies has its place', z3.ForAll([i], z3.Implies(z3.And(rng(i, c.n), keep(i)), z3.And(rng(inv(i), m), sel[0][0](inv(i)) == i)), patterns=[keep(i)]))
    T.lemma(s, 'a cluster without a sub-cluster is selected', z3.ForAll([i], z3.Implies(z3.And(rng(i, c.n), keep(i)), z3.Exists([k], z3.And(rng(k, v.n), pos == i, sc == score(c.get(i))), patterns=[pos])), patterns=[keep(i)]))


def subclusters(T, c, A):
    """ghost predicates: cluster j is a sub-cluster of cluster i; no other cluster is a sub-cluster of i"""
    Int = z3.IntSort()
    sub, d = z3.Function('sub!%d' % uid(), Int, Int, z3.BoolSort()), z3.Function('miss!%d' % uid(), Int, Int, StrSort)
    keep, o = z3.Function('keep!%d' % uid(), Int, z3.BoolSort()), z3.Function('other!%d' % uid(), Int, Int)
    i, j, e = fi('i'), fi('j'), z3.FreshConst(StrSort, 'e')
    ok = z3.And(rng(i, c.n), rng(j, c.n))
    hint = T.eng.hint = z3.Function('hint', Int, z3.BoolSort())         # true everywhere: iterations to look at
    seen = T.eng.seen = z3.Function('seen', Int, z3.BoolSort())         # true everywhere: iterations looked at
    T.assume(z3.ForAll([i], hint(i), patterns=[keep(i)]),
             z3.ForAll([i, j, e], z3.Implies(z3.And(ok, sub(j, i), FS.mem(A(j), e)), FS.mem(A(i), e)), patterns=[z3.MultiPattern(sub(j, i), FS.mem(A(j), e))]),
             z3.ForAll([i, j], z3.Implies(z3.And(ok, z3.Not(sub(j, i))), z3.And(FS.mem(A(j), d(j, i)), z3.Not(FS.mem(A(i), d(j, i))))), patterns=[sub(j, i)]),
             z3.ForAll([i, j], z3.Implies(z3.And(ok, i != j, keep(i)), z3.Not(sub(j, i))), patterns=[z3.MultiPattern(keep(i), sub(j, i))]),
             z3.ForAll([i, j], z3.Implies(z3.And(ok, i != j, keep(i)), z3.Not(sub(j, i))), patterns=[z3.MultiPattern(keep(i), seen(j))]),
             z3.ForAll([i], z3.Implies(z3.And(rng(i, c.n), z3.Not(keep(i))), z3.And(rng(o(i), c.n), o(i) != i, sub(o(i), i), hint(o(i)))), patterns=[keep(i)]))
    return sub, keep


# ---------------------------------------------------------------- clean_clusters: the callees by their contracts above
def sel_sym(eng, st, name, *sorts): return eng.fresh_fn(st, name, *sorts)


def use_cleaning(T):
    eng = T.eng
    Int = z3.IntSort()

    def dup(eng, st, args, kw):
        c = eng.snap(st, args[0])
        C = member_sets(T, c, 'C', st=st)
        n, src, to = eng.fresh_fn(st, 'dn', Int)(), eng.fresh_fn(st, 'dsrc', Int, Int), eng.fresh_fn(st, 'dto', FS.sort, Int)
        D = z3.Function('D.in!%d' % uid(), Int, StrSort, z3.BoolSort())
        v = T.sym(TList(CS), 'diff')
        k, k2, i, e = fi('k'), fi('k'), fi('i'), z3.FreshConst(StrSort, 'e')
        from pydv.lib import fset_is
        dom = v.get(k).items[1].dom(P(STR, e))
        eng.assume(st, z3.ForAll([k], z3.Implies(rng(k, v.n), z3.And(rng(src(k), c.n), to(C(src(k))) == k, v.get(k).items[0].t == c.get(src(k)).items[0].t)), patterns=[src(k)]),
                   z3.ForAll([k], z3.Implies(rng(k, v.n), rng(src(k), c.n)), patterns=[v.get(k).items[0].t]),
                   z3.ForAll([k, e], z3.Implies(rng(k, v.n), dom == FS.mem(C(src(k)), e)), patterns=[dom]),
                   z3.ForAll([k, e], z3.Implies(rng(k, v.n), dom == FS.mem(C(src(k)), e)), patterns=[FS.mem(C(src(k)), e)]),
                   z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < v.n), src(k) < src(k2)), patterns=[z3.MultiPattern(src(k), src(k2))]),
                   z3.ForAll([i], z3.Implies(rng(i, c.n), z3.And(rng(to(C(i)), v.n), C(src(to(C(i)))) == C(i), src(to(C(i))) <= i)), patterns=[C(i)]))
        if T.g.get('nonempty'):
            T.lemma(st, 'no candidate with positive score is empty', z3.ForAll([i], z3.Implies(rng(i, c.n), FS.mem(C(i), c.get(i).items[1].get(z3.IntVal(0)).t)), patterns=[C(i)]))
        T.g.update(c=c, C=C, src=src, to=to, d=v)
        return [(st, eng.box(st, v))]

    def index(eng, st, args, kw):
        c = eng.snap(st, args[0])
        v = T.sym(TDict(STR, TSet(INT), 'set'), 'invidx')
        i, e, w = fi(), z3.FreshConst(StrSort, 'e'), z3.Function('inv.at!%d' % uid(), StrSort, Int)
        inn = z3.And(rng(i, c.n), c.get(i).items[1].dom(P(STR, e)))
        key = P(STR, e)
        eng.assume(st, z3.ForAll([i, e], z3.Implies(inn, v.dom(key)), patterns=[c.get(i).items[1].dom(key)]),
                   z3.ForAll([e], z3.Implies(v.dom(key), z3.And(rng(w(e), c.n), c.get(w(e)).items[1].dom(key))), patterns=[v.dom(key)]),
                   z3.ForAll([i, e], z3.Implies(v.dom(key), v.val(key).dom(I(i)) == inn), patterns=[v.val(key).dom(I(i))]))
        T.g['idx'] = (c, v, w)
        return [(st, eng.box(st, v))]

    def single(eng, st, args, kw):
        x, d = eng.snap(st, args[0]), eng.snap(st, args[1])
        return [(st, eng.box(st, SetV(STR, lambda e: z3.And(x.dom(e), z3.Not(d.dom(e))))))]

    def superset(eng, st, args, kw):
        c, d = eng.snap(st, args[0]), eng.snap(st, args[1])
        eng.oblige(st, 'remove_superset gets the index of its clusters', forall([STR, INT], lambda e, i: z3.And(d.dom(e) == exists([INT], lambda j: z3.And(rng(j.t, c.n), c.get(j.t).items[1].dom(e))),
                   z3.Implies(d.dom(e), d.val(e).dom(i) == z3.And(rng(i.t, c.n), c.get(i.t).items[1].dom(e))))))
        eng.oblige(st, 'remove_superset gets no empty cluster', foralli(c.n, lambda i: exists([STR], lambda e: c.get(i).items[1].dom(e))))
        n, sel, to = eng.fresh_fn(st, 'kn', Int)(), eng.fresh_fn(st, 'sel', Int, Int), eng.fresh_fn(st, 'selinv', Int, Int)
        keep, other = eng.fresh_fn(st, 'top', Int, z3.BoolSort()), eng.fresh_fn(st, 'below', Int, Int)
        miss = eng.fresh_fn(st, 'miss', Int, Int, StrSort)
        k, k2, i, j, e = fi('k'), fi('k'), fi('i'), fi('j'), z3.FreshConst(StrSort, 'e')
        has_ = lambda i, e: c.get(i).items[1].dom(P(STR, e))
        src = T.g.get('src') or eng.fresh_fn(st, 'src', Int, Int)
        look = z3.Function('look!%d' % uid(), Int, z3.BoolSort())
        eng.assume(st, n >= 0, n <= c.n,
                   z3.ForAll([k], z3.Implies(rng(k, n), z3.And(rng(sel(k), c.n), keep(sel(k)), to(sel(k)) == k)), patterns=[sel(k)]),
                   z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < n), sel(k) < sel(k2)), patterns=[z3.MultiPattern(sel(k), sel(k2))]),
                   z3.ForAll([i], z3.Implies(z3.And(rng(i, c.n), keep(i)), z3.And(rng(to(i), n), sel(to(i)) == i)), patterns=[keep(i), src(i)]),
                   # keep(i): every other cluster has an element that i lacks
                   z3.ForAll([i, j], z3.Implies(z3.And(rng(i, c.n), rng(j, c.n), i != j, keep(i)), z3.And(has_(j, miss(j, i)), z3.Not(has_(i, miss(j, i))))), patterns=[miss(j, i), z3.MultiPattern(keep(i), src(j))]),
                   z3.ForAll([i], z3.Implies(z3.And(rng(i, c.n), z3.Not(keep(i))), z3.And(rng(other(i), c.n), other(i) != i, look(src(other(i))))), patterns=[keep(i), src(i)]),
                   z3.ForAll([i, e], z3.Implies(z3.And(rng(i, c.n), z3.Not(keep(i)), has_(other(i), e)), has_(i, e)), patterns=[has_(other(i), e)]))
        T.g.update(sel=sel, sinv=to, keep=keep, miss=miss, other=other)
        return [(st, eng.box(st, ListV(n, lambda q: c.get(sel(q)), c.el)))]
    T.g = {}
    for nm, h in (('remove_duplicate', dup), ('inverted_index', index), ('remove_singleton', single), ('remove_superset', superset)):
        eng.callees[CB + ':' + nm] = h


@contract('P22', CB + ':clean_clusters', budget=200)
def _(T):
    use_cleaning(T)
    Lr = T.new(TList(CL), 'L'); l = T.snap(Lr)
    A = member_sets(T, l)
    i = fi()
    T.pre(z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), score(l.get(i)) > 0), l.get(i).items[1].n > 0), patterns=[score(l.get(i))]))
    T.g['nonempty'] = True
    positive = lambda i: score(l.get(i)) > 0
    before = lambda i, j: z3.Or(score(l.get(i)) > score(l.get(j)), z3.And(score(l.get(i)) == score(l.get(j)), i < j))
    sub, chosen = best_places(T, l, A, positive, before)
    for s, r in T.normal(T.call(CB + ':clean_clusters', [Lr])):
        assert isinstance(r, TupV) and len(r.items) == 2
        v, x = T.snap(r.items[0], s), T.snap(r.items[1], s)
        B = member_sets(T, v, 'B', st=s)
        cleaning_steps(T, s, l, A, v, B, positive, before, sub, chosen)
        T.post(s, 'what is kept is the best placed cluster with its members, and no sub-cluster of it exists', foralli(v.n, lambda k: exists([INT], lambda i: z3.And(rng(i.t, l.n), chosen(i.t), B(k) == A(i.t), score(v.get(k)) == score(l.get(i.t))))))
        T.post(s, 'every such cluster is kept', foralli(l.n, lambda i: z3.Implies(chosen(i), exists([INT], lambda k: z3.And(rng(k.t, v.n), B(k.t) == A(i), score(v.get(k.t)) == score(l.get(i)))))))
        T.post(s, 'best to worst', forall([INT, INT], lambda k, k2: z3.Implies(z3.And(0 <= k.t, k.t < k2.t, k2.t < v.n), score(v.get(k.t)) >= score(v.get(k2.t)))))
        first = lambda i: l.get(i).items[1].get(z3.IntVal(0)).t
        alone = lambda i: z3.And(rng(i, l.n), z3.Not(positive(i)), l.get(i).items[1].n > 0)
        T.post(s, 'a single element stands for a cluster without positive score', forall([STR], lambda e: z3.Implies(x.dom(e), exists([INT], lambda i: z3.And(alone(i.t), first(i.t) == e.t)))))
        T.post(s, 'and no cluster with positive score has it', forall([STR, INT], lambda e, i: z3.Implies(z3.And(x.dom(e), rng(i.t, l.n), positive(i.t)), z3.Not(FS.mem(A(i.t), e.t)))))
        T.post(s, 'every such element is reported', foralli(l.n, lambda i: z3.Implies(z3.And(alone(i), z3.Not(x.dom(P(STR, first(i))))),
               exists([INT], lambda j: z3.And(rng(j.t, l.n), positive(j.t), FS.mem(A(j.t), first(i)))))))
        T.unchanged(s, 'the candidates are unchanged', Lr)


def best_places(T, l, A, positive, before):
    """ghost predicates: the members of j are among those of i; i is the best placed cluster with positive score and its
    members, and no cluster with positive score has fewer of its members"""
    Int = z3.IntSort()
    sub, d = z3.Function('sub!%d' % uid(), Int, Int, z3.BoolSort()), z3.Function('miss!%d' % uid(), Int, Int, StrSort)
    chosen, o = z3.Function('chosen!%d' % uid(), Int, z3.BoolSort()), z3.Function('rival!%d' % uid(), Int, Int)
    i, j, e = fi('i'), fi('j'), z3.FreshConst(StrSort, 'e')
    ok = z3.And(rng(i, l.n), rng(j, l.n))
    rival = lambda j, i: z3.And(positive(j), j != i, sub(j, i), z3.Implies(A(j) == A(i), z3.Not(before(i, j))))
    T.assume(z3.ForAll([i, j, e], z3.Implies(z3.And(ok, sub(j, i), FS.mem(A(j), e)), FS.mem(A(i), e)), patterns=[z3.MultiPattern(sub(j, i), FS.mem(A(j), e))]),
             z3.ForAll([i, j], z3.Implies(z3.And(ok, z3.Not(sub(j, i))), z3.And(FS.mem(A(j), d(j, i)), z3.Not(FS.mem(A(i), d(j, i))))), patterns=[sub(j, i)]),
             z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), chosen(i)), positive(i)), patterns=[chosen(i)]),
             z3.ForAll([i, j], z3.Implies(z3.And(ok, chosen(i)), z3.Not(rival(j, i))), patterns=[z3.MultiPattern(chosen(i), sub(j, i)), z3.MultiPattern(chosen(i), A(j))]),
             z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), z3.Not(chosen(i)), positive(i)), z3.And(rng(o(i), l.n), rival(o(i), i))), patterns=[chosen(i)]))
    return sub, chosen


def cleaning_steps(T, s, l, A, v, B, positive, before, sub, chosen):
    """lemmas on the way, about the values the callees got and gave"""
    g = T.g
    if not {'c', 'sel'} <= set(g): return
    c, C, src, to, d, sel, sinv, keep, miss, other = [g[x] for x in ('c', 'C', 'src', 'to', 'd', 'sel', 'sinv', 'keep', 'miss', 'other')]
    i, j, k = fi('i'), fi('j'), fi('k')
    t = z3.simplify(score(c.get(j)))
    u = z3.simplify(score(l.get(j)))
    if not (z3.is_app(t) and t.num_args() == 1 and t.decl().eq(u.decl())): return
    perm = lambda x: z3.substitute(t.arg(0), (j, x))
    T.lemma(s, 'the candidates with positive score come first', z3.ForAll([j], z3.Implies(rng(j, c.n), z3.And(rng(perm(j), l.n), C(j) == A(perm(j)), positive(perm(j)))), patterns=[C(j)]))
    T.lemma(s, 'and all of them', z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), positive(i)), z3.Exists([j], z3.And(rng(j, c.n), perm(j) == i), patterns=[perm(j)])), patterns=[score(l.get(i))]))
    q = lambda k: perm(src(k))
    T.lemma(s, 'each distinct candidate is one with positive score', z3.ForAll([k], z3.Implies(rng(k, d.n), z3.And(rng(q(k), l.n), positive(q(k)), C(src(k)) == A(q(k)), to(A(q(k))) == k, score(d.get(k)) == score(l.get(q(k))))), patterns=[src(k)]))
    T.lemma(s, 'and the best placed of its kind', z3.ForAll([k, i], z3.Implies(z3.And(rng(k, d.n), rng(i, l.n), positive(i), A(i) == A(q(k)), i != q(k)), before(q(k), i)), patterns=[z3.MultiPattern(src(k), A(i))]))
    T.lemma(s, 'every kind is there', z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), positive(i)), z3.And(rng(to(A(i)), d.n), A(q(to(A(i)))) == A(i))), patterns=[A(i)]))
    e = z3.FreshConst(StrSort, 'e')
    dm = d.get(k).items[1].dom(P(STR, e))
    T.lemma(s, 'with its members', z3.ForAll([k, e], z3.Implies(rng(k, d.n), dm == FS.mem(A(q(k)), e)), patterns=[dm, FS.mem(A(q(k)), e)]))
    if 'idx' in g:
        x, w = g['idx'][1], g['idx'][2]
        T.lemma(s, 'what is indexed is in a candidate with positive score', z3.ForAll([e], z3.Implies(x.dom(P(STR, e)), z3.And(rng(q(w(e)), l.n), positive(q(w(e))), FS.mem(A(q(w(e))), e))), patterns=[x.dom(P(STR, e))]))
        T.lemma(s, 'and all of that is indexed', z3.ForAll([i, e], z3.Implies(z3.And(rng(i, l.n), positive(i), FS.mem(A(i), e)), x.dom(P(STR, e))), patterns=[FS.mem(A(i), e)]))
    r = lambda k: q(sel(k))
    T.lemma(s, 'the members of what is kept', z3.ForAll([k], z3.Implies(rng(k, v.n), z3.And(rng(r(k), l.n), B(k) == A(r(k)))), patterns=[sel(k)]))
    T.lemma(s, 'what is kept is chosen', z3.ForAll([k], z3.Implies(rng(k, v.n), chosen(r(k))), patterns=[sel(k)]))
    T.lemma(s, 'a chosen candidate is the one of its kind', z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), chosen(i)), z3.And(q(to(A(i))) == i, rng(to(A(i)), d.n))), patterns=[chosen(i)]))
    T.lemma(s, 'what is dropped has a sub-cluster', z3.ForAll([k], z3.Implies(z3.And(rng(k, d.n), z3.Not(keep(k))), z3.And(rng(other(k), d.n), other(k) != k, sub(q(other(k)), q(k)))), patterns=[keep(k)]))
    T.lemma(s, 'and nothing is below it', z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), chosen(i)), keep(to(A(i)))), patterns=[chosen(i)]))
    T.lemma(s, 'what is chosen is kept', z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), chosen(i)), z3.Exists([k], z3.And(rng(k, v.n), r(k) == i, B(k) == A(i)), patterns=[sel(k)])), patterns=[chosen(i)]))


# ---------------------------------------------------------------------------------------------- P23
PAIR = TTup(INT, INT)


def the_local(V, f):
    """the only local variable (not there before the loop as something else) whose value satisfies f"""
    out = []
    for k, v in V.st.env.items():
        try: x = V.eng.snap(V.st, v)
        except Exception: continue
        if f(x): out.append(x)
    return out[0] if len(out) == 1 else None


@contract('P23', CB + ':get_merged_committee', budget=200)
def _(T):
    eng = T.eng
    ar = T.new(TArr('nd2', None, REAL), 'simmx'); a = T.snap(ar)
    theta = T.sym(REAL, 'theta')
    n = a.shape[0]
    T.pre(a.shape[1] == n)
    sim = lambda i, j: a.get(i, j)
    one, two = lambda M, p: M.get(p).items[0].t, lambda M, p: M.get(p).items[1].t

    look = z3.Function('look', z3.IntSort(), z3.BoolSort())     # true everywhere: pairs to look at
    lp = fi('p')
    T.assume(z3.ForAll([lp], look(lp), patterns=[look(lp)]))

    def steps(M, S, i):
        p, q, k, x, t = fi('p'), fi('q'), fi('k'), fi('x'), fi('t')
        A = lambda vs, *b: z3.ForAll(vs, z3.Implies(z3.And(*b[:-1]), b[-1]))
        P = rng(p, M.n)
        PQ = z3.And(0 <= p, p < q, q < M.n)
        u, w = one(M, p), two(M, p)
        free = z3.ForAll([q], z3.Implies(rng(q, p), two(M, q) != k))
        ex = lambda b: z3.Implies(look(M.n - 1), z3.Exists([p], z3.And(look(p), P, b), patterns=[look(p)]))
        out = [('pairs start with a committee handled', A([p], P, rng(u, i))),
               ('each in turn', A([p, q], PQ, u < one(M, q))),
               ('a partner comes later', A([p], P, z3.Or(w == -1, z3.And(u < w, w < n)))),
               ('a partner is similar enough', A([p], P, w != -1, sim(u, w) >= theta.t)),
               ('no partner twice', A([p, q], PQ, w != -1, w != two(M, q))),
               ('no partner starts a pair', A([p, q], P, rng(q, M.n), u != two(M, q))),
               ('the partner is the most similar one left', A([p, k], P, u < k, k < n, free, z3.If(w == -1, sim(u, k) < theta.t, sim(u, k) <= sim(u, w))))]
        out.append(('every committee handled is in a pair', z3.ForAll([t], z3.Implies(z3.And(look(t), rng(t, i)), ex(z3.Or(u == t, w == t))), patterns=[look(t)])))
        if S is not None:
            s = lambda x: S.dom(I(x))
            out += [('partners are marked', A([p], P, w != -1, s(w))),
                    ('only partners are marked', A([x], s(x), ex(w == x))),
                    ('every other committee handled has its pair', A([t], rng(t, i), z3.Not(s(t)), ex(u == t)))]
        return out

    def inv(V):
        M = the_local(V, lambda x: isinstance(x, ListV) and (isinstance(x.el, TTup) or x.items == []))
        S = the_local(V, lambda x: isinstance(x, SetV))
        if M is None or S is None: return None
        if M.items == []: M = ListV(z3.IntVal(0), lambda p: TupV([I(0), I(0)]), PAIR)
        return steps(M, S, V.i)
    eng.generic = [('merging', inv)]
    for s, r in T.normal(T.call(CB + ':get_merged_committee', [ar], {'theta': theta})):
        v = T.snap(r, s)
        if v.items == []: v = ListV(z3.IntVal(0), lambda p: TupV([I(0), I(0)]), PAIR)
        for lab, f in steps(v, None, n): T.post(s, lab, f)
        T.unchanged(s, 'the similarities are unchanged', ar)


@contract('P23', CB + ':cbc_step3', budget=200)
def _(T):
    eng = T.eng
    er = T.new(TList(STR), 'elements'); E = T.snap(er)
    mr, cr = T.new(TArr('nd2', None, REAL), 'measmx'), T.new(TArr('nd2', None, REAL), 'commx')
    m, c = T.snap(mr), T.snap(cr)
    gr = T.new(TList(TList(STR)), 'comms'); G = T.snap(gr)
    theta = T.sym(REAL, 'theta')
    n = E.n
    T.pre(z3.And(m.shape[0] == n, n >= 1, c.shape[0] == G.n, G.n >= 1, m.shape[1] == c.shape[1]))
    Int, Bool = z3.IntSort(), z3.BoolSort()
    K = G.n
    sim = z3.Function('similarity', Int, Int, z3.RealSort())
    res, wit, best = z3.Function('residue', Int, Bool), z3.Function('similar', Int, Int), z3.Function('best', Int, Int)
    cnt, pos, look = z3.Function('residues', Int, Int), z3.Function('residue.at', Int, Int), z3.Function('look', Int, Bool)
    i, j, k, c_ = fi('i'), fi('j'), fi('k'), fi('c')
    T.assume(z3.ForAll([k], look(k), patterns=[look(k)]),
             # residue(i): the similarity of element i to every committee is below the threshold
             z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, K), res(i)), sim(i, j) < theta.t), patterns=[z3.MultiPattern(res(i), sim(i, j))]),
             z3.ForAll([i], z3.Implies(z3.And(rng(i, n), z3.Not(res(i))), z3.And(rng(wit(i), K), sim(i, wit(i)) >= theta.t)), patterns=[res(i)]),
             # best(i): the first of the most similar committees
             z3.ForAll([i], z3.Implies(rng(i, n), rng(best(i), K)), patterns=[best(i)]),
             z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), rng(j, K)), z3.And(sim(i, j) <= sim(i, best(i)), z3.Implies(j < best(i), sim(i, j) < sim(i, best(i))))), patterns=[sim(i, j)]),
             # the k-th residue
             cnt(0) == 0,
             z3.ForAll([i], z3.Implies(i >= 0, cnt(i + 1) == cnt(i) + z3.If(res(i), 1, 0)), patterns=[res(i)]),
             z3.ForAll([i], z3.Implies(z3.And(rng(i, n), res(i)), pos(cnt(i)) == i), patterns=[res(i)]),
             z3.ForAll([k], z3.Implies(rng(k, cnt(n)), z3.And(rng(pos(k), n), res(pos(k)), cnt(pos(k)) == k)), patterns=[pos(k)]),
             z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < cnt(n)), pos(j) < pos(k)), patterns=[z3.MultiPattern(pos(j), pos(k))]))

    def cos(eng, st, args, kw):
        x, y = eng.val(st, args[0]), eng.val(st, args[1])
        eng.oblige(st, 'the similarity of the elements to the committees', z3.BoolVal(len(args) == 2 and eng.val(st, mr) is x and eng.val(st, cr) is y))
        return [(st, eng.alloc(st, ArrV('nd', [n, K], lambda i, j: sim(i, j), REAL)))]
    eng.ext['sklearn.metrics.pairwise.cosine_similarity'] = cos

    def parts(R, C, i):
        t, k = fi('t'), fi('k')
        x = lambda c, k: C.get(c).get(k).t
        old = lambda c, k: G.get(c).get(k).t
        ln = lambda c: C.get(c).n
        out = [] if R is None else [('one entry for every residue', R.n == cnt(i)), ('the residues in order', z3.ForAll([k], z3.Implies(rng(k, R.n), R.get(k).t == E.get(pos(k)).t)))]
        if C is None: return out
        return out + [('as many committees', C.n == K),
               ('members stay', z3.ForAll([c_, k], z3.Implies(z3.And(rng(c_, K), rng(k, G.get(c_).n)), z3.And(ln(c_) >= G.get(c_).n, x(c_, k) == old(c_, k))))),
               ('none is dropped', z3.ForAll([c_], z3.Implies(rng(c_, K), ln(c_) >= G.get(c_).n))),
               ('new members are elements most similar to the committee', z3.ForAll([c_, k], z3.Implies(z3.And(rng(c_, K), G.get(c_).n <= k, k < ln(c_), look(i - 1)),
                    z3.Exists([t], z3.And(look(t), rng(t, i), z3.Not(res(t)), best(t) == c_, E.get(t).t == x(c_, k)), patterns=[look(t)])))),
               ('every element that is no residue is in its committee', z3.ForAll([t], z3.Implies(z3.And(rng(t, i), z3.Not(res(t)), look(ln(best(t)) - 1)),
                    z3.Exists([k], z3.And(look(k), rng(k, ln(best(t))), x(best(t), k) == E.get(t).t), patterns=[look(k)]))))]

    def inv(V):
        R = the_local(V, lambda x: isinstance(x, ListV) and (x.el == STR and x is not E or x.items == []))
        C = the_local(V, lambda x: isinstance(x, ListV) and isinstance(x.el, TList) and x is not G)
        if R is not None and R.items == []: R = ListV(z3.IntVal(0), lambda p: P(STR, z3.Const('none', StrSort)), STR)
        return parts(R, C, V.i)
    eng.generic = [('assigning', inv)]
    for s, r in T.normal(T.call(CB + ':cbc_step3', [er], {'measmx': mr, 'comms': gr, 'commx': cr, 'theta': theta})):
        R, C = [T.snap(x, s) for x in r.items]
        if R.items == []: R = ListV(z3.IntVal(0), lambda p: P(STR, z3.Const('none', StrSort)), STR)
        for lab, f in parts(R, C, n): T.post(s, lab, f)
        T.unchanged(s, 'the inputs are unchanged', er, gr, mr, cr)


# ------------------------------------------------------------------------------------------- scores (P24)
def address(i, j, n):
    """ghost: the position of the pair i, j in the condensed table of n elements (rows of the upper triangle one after another), doubled"""
    a, b = z3.If(i < j, i, j), z3.If(i < j, j, i)
    return 2 * n * a - a * (a + 1) + 2 * (b - a - 1)


def half_of(T, y):
    """y(y+1)/2 as a whole number"""
    h, tri = y / 2, fi('triangle')
    v = z3.If(y == 2 * h, h * (2 * h + 1), (2 * h + 1) * (h + 1))
    T.lemma(T.st, 'one of two neighbours is even', y * (y + 1) == 2 * v)
    T.assume(tri == v)
    T.lemma(T.st, 'half of it', y * (y + 1) == 2 * tri)
    return tri


@contract('P24', CB + ':square_to_condensed')
def _(T):
    i, j, n = [T.sym(INT, x) for x in 'ijn']
    T.pre(z3.And(rng(i.t, n.t), rng(j.t, n.t)))
    for y in (i.t, j.t):
        half_of(T, y)
        T.lemma(T.st, 'addresses are not negative', y * (2 * n.t - y - 1) >= 0)
    for s, r in T.call(CB + ':square_to_condensed', [i, j, n]):
        if isinstance(r, Exc):
            T.post(s, 'refused exactly for one element twice', z3.And(i.t == j.t, z3.BoolVal(r.name == 'AssertionError')))
            continue
        T.post(s, 'refused exactly for one element twice', i.t != j.t)
        T.post(s, 'the place of the pair in the condensed table', 2 * r.t == address(i.t, j.t, n.t))


@contract('P24', CB + ':square_to_condensed', label='addresses')
def _(T):
    """over the addresses: the same for both orders, inside the table, distinct for distinct pairs"""
    i, j, k, l, n = [T.sym(INT, x).t for x in 'ijkln']
    st = T.st
    T.pre(z3.And(rng(i, n), rng(j, n), i < j, rng(k, n), rng(l, n), k < l))
    T.post(st, 'the same for both orders', address(i, j, n) == address(j, i, n))
    T.post(st, 'inside the table', z3.And(0 <= address(i, j, n), address(i, j, n) < n * (n - 1)))
    # the row of a smaller first element ends before the row of a larger one begins
    T.lemma(st, 'rows follow one another', z3.Implies(i < k, (k - i - 1) * (2 * n - 2 - i - k) >= 0))
    T.lemma(st, 'rows follow one another', z3.Implies(k < i, (i - k - 1) * (2 * n - 2 - i - k) >= 0))
    T.post(st, 'distinct for distinct pairs', z3.Implies(address(i, j, n) == address(k, l, n), z3.And(i == k, j == l)))


@contract('P24', CB + ':sub2glb')
def _(T):
    cr, sr, gr = T.new(TList(INT), 'cluster'), T.new(TList(STR), 'subitems'), T.new(TList(STR), 'glbitems')
    C, S, G = T.snap(cr), T.snap(sr), T.snap(gr)
    k, p, q = fi('k'), fi('p'), fi('q')
    at = z3.Function('global.index', z3.IntSort(), z3.IntSort())
    T.pre(z3.And(z3.ForAll([k], z3.Implies(rng(k, C.n), rng(C.get(k).t, S.n))),
          z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < G.n), G.get(p).t != G.get(q).t)),
          z3.ForAll([p], z3.Implies(rng(p, S.n), z3.And(rng(at(p), G.n), G.get(at(p)).t == S.get(p).t)))))
    for s, r in T.normal(T.call(CB + ':sub2glb', [cr, sr, gr])):
        v = T.snap(r, s)
        T.post(s, 'one index for every member', v.n == C.n)
        T.post(s, 'the indices of the same elements', z3.ForAll([k], z3.Implies(rng(k, C.n), z3.And(rng(v.get(k).t, G.n), G.get(v.get(k).t).t == S.get(C.get(k).t).t))))
        T.unchanged(s, 'the inputs are unchanged', cr, sr, gr)


def condensed(T, N):
    """the condensed table of N elements and the address in it as a ghost function (contract of square_to_condensed)"""
    eng = T.eng
    mr = T.new(TArr('nd', None, REAL), 'simmx')
    m = T.snap(mr)
    T.pre(z3.And(2 * m.shape[0] == N * (N - 1), N >= 2))
    ad = z3.Function('address', z3.IntSort(), z3.IntSort(), z3.IntSort())
    a, b = fi('a'), fi('b')
    T.assume(z3.ForAll([a, b], z3.Implies(z3.And(rng(a, N), rng(b, N), a != b), rng(ad(a, b), m.shape[0])), patterns=[ad(a, b)]))

    def callee(e, st, args, kw):
        i, j, n = [e.val(st, x).t for x in args]
        e.oblige(st, 'the number of elements behind the table', n == N)
        out = []
        for s, b in e.split(st, i != j): out.append((s, P(INT, ad(i, j)) if b else Exc('AssertionError')))
        return out
    eng.callees[CB + ':square_to_condensed'] = callee
    return mr, m, ad


@contract('P24', CB + ':average_similarity')
def _(T):
    eng = T.eng
    N = T.sym(INT, 'N').t
    mr, m, ad = condensed(T, N)
    ir = T.new(TList(INT), 'idx')
    x = T.snap(ir)
    p, q = fi('p'), fi('q')
    T.pre(z3.And(x.n >= 2, z3.ForAll([p], z3.Implies(rng(p, x.n), rng(x.get(p).t, N))),
          z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < x.n), x.get(p).t != x.get(q).t))))
    d = eng.new_sum([p], q, m.get(ad(x.get(p).t, x.get(p + 1 + q).t)))
    tot = eng.new_sum([], p, d.at([p], x.n - p - 1)).at([], x.n)
    pairs = half_of(T, x.n - 1)
    T.lemma(T.st, 'there is a pair', pairs >= 1)
    for s, r in T.normal(T.call(CB + ':average_similarity', [ir, mr])):
        T.post(s, 'the mean over the pairs of its members', r.t == tot / z3.ToReal(pairs))
        T.unchanged(s, 'the inputs are unchanged', ir, mr)


def average_of(T, mr, c, avg):
    """contract of average_similarity, for the members of one of the clusters"""
    def callee(e, st, args, kw):
        e.oblige(st, 'the similarities of this problem', z3.BoolVal(e.val(st, args[1]) is T.snap(mr)))
        v = e.val(st, args[0])
        n = v.n
        if not (z3.is_app(n) and n.num_args() == 1 and eqv_same(c.val(I(n.arg(0))), v)): raise Unsupported('members of no known cluster')
        e.oblige(st, 'at least two members', n >= 2)
        return [(st, P(REAL, avg(n.arg(0))))]
    return callee


def eqv_same(a, b):
    p = fi('p')
    return a.n.eq(b.n) and a.get(p).t.eq(b.get(p).t)


def groups(T):
    cr = T.new(TDict(INT, TList(INT)), 'clusters')
    c = T.snap(cr)
    k = fi('k')
    T.pre(z3.ForAll([k], z3.Implies(c.dom(I(k)), c.val(I(k)).n >= 1)))
    return cr, c


@contract('P24', CB + ':cluster_avgsim')
def _(T):
    eng = T.eng
    cr, c = groups(T)
    mr = T.new(TArr('nd', None, REAL), 'simmx')
    k = fi('k')
    avg = z3.Function('average', z3.IntSort(), z3.RealSort())      # the average of the cluster with this key

    eng.callees[CB + ':average_similarity'] = average_of(T, mr, c, avg)
    for s, r in T.normal(T.call(CB + ':cluster_avgsim', [cr, mr])):
        v = T.snap(r, s)
        T.post(s, 'every cluster has its average', z3.ForAll([k], v.dom(I(k)) == c.dom(I(k))))
        T.post(s, 'one for a single element', z3.ForAll([k], z3.Implies(z3.And(c.dom(I(k)), c.val(I(k)).n == 1), v.val(I(k)).t == 1)))
        T.post(s, 'the average over its own pairs', z3.ForAll([k], z3.Implies(z3.And(c.dom(I(k)), c.val(I(k)).n > 1), v.val(I(k)).t == avg(k))))
        T.unchanged(s, 'the inputs are unchanged', cr, mr)


METRICS = ('with_size', 'with_size_sqrt', 'without_size')


@contract('P24', CB + ':score_cluster', params=[(m, h) for m in METRICS for h in (True, False)])
def _(T, param):
    metric, highest = param
    eng = T.eng
    cr, c = groups(T)
    mr = T.new(TArr('nd', None, REAL), 'simmx')
    k, p = fi('k'), fi('p')
    avg = z3.Function('average', z3.IntSort(), z3.RealSort())
    sq = eng.uf('sqrt', z3.RealSort(), z3.RealSort())
    n = lambda k: c.val(I(k)).n
    size = lambda k: z3.ToReal(n(k))
    score = lambda k: z3.If(n(k) == 1, z3.RealVal(-1), {'with_size': size(k) * avg(k), 'with_size_sqrt': sq(size(k)) * avg(k), 'without_size': avg(k)}[metric])
    T.assume(z3.ForAll([k], z3.Implies(z3.And(c.dom(I(k)), n(k) == 1), avg(k) == 1)))

    def sims(e, st, args, kw):
        e.oblige(st, 'the averages of these clusters', z3.BoolVal(e.val(st, args[0]) is c and e.val(st, args[1]) is T.snap(mr)))
        return [(st, e.alloc(st, DictV(INT, REAL, c.dom, lambda key: P(REAL, avg(key.t)), c.enum)))]
    eng.callees[CB + ':cluster_avgsim'] = sims
    cnt, keyat, idx = c.enum
    if highest: T.pre(z3.Exists([k], z3.And(c.dom(I(k)), score(k) > 0)))

    def inv(V):
        """a number that is the largest score so far, with the key of its cluster; scores of the clusters so far"""
        vals = {}
        for name, v in V.st.env.items():
            if name in ('clusters', 'simmx'): continue
            try: vals[name] = eng.snap(V.st, v)
            except Exception: pass
        out = []
        for a, x in vals.items():
            if isinstance(x, DictV) and x.k == INT and x.v == REAL:
                out += [('scores of the clusters so far ' + a, z3.ForAll([k], x.dom(I(k)) == z3.And(c.dom(I(k)), idx(I(k)) < V.i))),
                        ('values of the scores so far ' + a, z3.ForAll([k], z3.Implies(z3.And(c.dom(I(k)), idx(I(k)) < V.i), x.val(I(k)).t == score(k))))]
            if isinstance(x, CDictV) and not x.d: out.append(('scores of the clusters so far ' + a, V.i == 0))
            if isinstance(x, P) and x.ty == REAL:
                out += [('not negative ' + a, x.t >= 0), ('a largest score ' + a, z3.ForAll([k], z3.Implies(z3.And(c.dom(I(k)), idx(I(k)) < V.i), score(k) <= x.t)))]
                for b, y in vals.items():
                    if isinstance(y, P) and y.ty == INT:
                        out.append(('its cluster %s %s' % (a, b), z3.Implies(x.t > 0, z3.And(c.dom(y), idx(y) < V.i, score(y.t) == x.t))))
        return out
    eng.generic = [('scores', inv)]
    for s, r in T.normal(T.call(CB + ':score_cluster', [cr, mr], {'metric': P(STR, strlit(metric)), 'highest': P(BOOL, z3.BoolVal(highest))})):
        v = T.snap(r, s)
        one = lambda q: (v.get(q).items[0].t, T.snap(v.get(q).items[1], s))
        if highest:
            sc, m = one(z3.IntVal(0))
            T.post(s, 'one cluster', v.n == 1)
            T.post(s, 'no cluster scores higher', z3.ForAll([k], z3.Implies(c.dom(I(k)), score(k) <= sc)))
            T.post(s, 'with its own score', z3.Exists([k], z3.And(c.dom(I(k)), score(k) == sc, eqv(c.val(I(k)), m))))
        else:
            q = fi('q')
            sc, m = one(q)
            T.post(s, 'one entry for every cluster', v.n == cnt)
            T.post(s, 'every cluster with its score', z3.ForAll([q], z3.Implies(rng(q, cnt), z3.And(sc == score(keyat(q).t), eqv(m, c.val(keyat(q)))))))
        T.unchanged(s, 'the inputs are unchanged', cr, mr)
