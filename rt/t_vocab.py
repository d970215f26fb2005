"""P01-P04: vocabularies"""
import operator
import os
from rt.core import kind
from rt.gen import *
from nephosem import Vocab

OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq}


def mk(d): return Vocab({k: v for k, v in d})


def g_sel(rng, size):
    d = fdict(rng, size)
    fs = [f for _, f in d] + [0, 1, 2, 1.5]
    sel = []
    for _ in range(rng.randint(1, 3)):
        sel.append(rng.choice(['cmp', 'items']))
    conds = [[rng.choice(sorted(OPS)), rng.choice(fs) if rng.random() < 0.8 else freq(rng)] for _ in range(rng.randint(1, 3))]
    items = [rng.choice([k for k, _ in d] + WORDS[:8]) for _ in range(rng.randint(1, 5))]
    return {'d': d, 'conds': conds, 'items': items, 'freqs': [rng.choice([f for f in fs if isinstance(f, int)]) for _ in range(rng.randint(1, 4))],
            'lo': rng.choice([None, 0, 1, 2, -1, -2, 50]), 'hi': rng.choice([None, 0, 1, 2, 3, -1, -2, 50]),
            'word': rng.choice([k.rsplit('/', 1)[0] for k, _ in d] + ['apple', 'a', 'a/b'])}


def ranked(d): return sorted(d.items(), key=lambda kv: (-kv[1], kv[0]))


@kind('P01', 'selection', g_sel)
def _(c):
    d = dict(map(tuple, c['d']))
    v = mk(c['d'])
    sets = []
    for op, x in c['conds']:
        r = OPS[op](v.freq, x)
        want = [k for k, f in d.items() if OPS[op](f, x)]
        if sorted(r) != sorted(want): return 'freq %s %r lists %r, expected %r' % (op, x, r, want)
        sets.append(r)
    w = v[tuple(sets)]
    want = {k: f for k, f in d.items() if all(OPS[op](f, x) for op, x in c['conds'])}
    if w.get_dict() != want: return 'several conditions: %r, expected %r' % (w.get_dict(), want)
    if sets[0]:
        if v[sets[0]].get_dict() != {k: f for k, f in d.items() if k in sets[0]}: return 'condition as index'
    w = v[c['items']]
    if w.get_dict() != {k: f for k, f in d.items() if k in c['items']}: return 'by items: %r' % w.get_dict()
    w = v[c['freqs']]
    if w.get_dict() != {k: f for k, f in d.items() if f in c['freqs']}: return 'by frequencies: %r' % w.get_dict()
    w = v[tuple([c['items'], c['freqs']])]
    if w.get_dict() != {k: f for k, f in d.items() if k in c['items'] and f in c['freqs']}: return 'by items and frequencies: %r' % w.get_dict()
    w = v[c['lo']:c['hi']]
    if w.get_dict() != dict(ranked(d)[c['lo']:c['hi']]): return 'rank slice [%r:%r]: %r' % (c['lo'], c['hi'], w.get_dict())
    w = v.subvocab(c['items'])
    if w.get_dict() != {k: d.get(k, 0) for k in c['items']}: return 'subvocab: %r' % w.get_dict()
    w = v.select_items(c['word'])
    if w.get_dict() != {k: f for k, f in d.items() if k.rsplit('/', 1)[0] == c['word']}: return 'select_items(%r): %r' % (c['word'], w.get_dict())
    if v[[]].get_dict() != {}: return 'empty selection'
    if v.get_dict() != d: return 'source changed to %r' % v.get_dict()
    for k in c['items']:
        if (k in v) != (k in d): return 'membership of %r' % k
        if k in d and v[k] != d[k]: return 'v[%r]' % k


def g_ord(rng, size):
    d = fdict(rng, size)
    perm = list(range(len(d))); rng.shuffle(perm)
    return {'d': d, 'perm': perm, 'n': rng.choice([0, 1, 2, 3, 5]), 'm': rng.choice([0, 1, 2])}


@kind('P02', 'ordering', g_ord)
def _(c):
    d = dict(map(tuple, c['d']))
    n = len(c['d'])
    perm = [p for p in c['perm'] if p < n]
    if sorted(perm) != list(range(n)): perm = list(range(n))
    v = mk(c['d']); w = mk([c['d'][p] for p in perm])
    want = ranked(d)
    for x in (v, w):
        df = x.dataframe
        if list(df.columns) != ['item', 'freq']: return 'columns %r' % list(df.columns)
        if list(zip(df['item'], df['freq'])) != want: return 'dataframe rows %r, expected %r' % (list(zip(df['item'], df['freq'])), want)
        s = x[c['m']:c['n']].get_dict()
        if s != dict(want[c['m']:c['n']]): return 'slice %r' % s
        for desc in (False, True):
            if x.get_item_list('alpha', desc) != sorted(d, reverse=desc): return 'alphabetical list'
            l = x.get_item_list('freq', desc)
            if sorted(l) != sorted(d): return 'frequency list is no permutation'
            if [d[k] for k in l] != sorted(d.values(), reverse=desc): return 'frequency list order %r' % l
    if v.get_item_list() != sorted(d): return 'default item list'


def g_hist(rng, size):
    ops = []
    for _ in range(rng.randint(1, 2 + size)):
        o = rng.choice(['inc', 'inc', 'inc1', 'set', 'copy', 'get_dict', 'ctor', 'orig', 'exp', 'copymut', 'df'])
        ops.append([o, rng.choice(WORDS[:6]), freq(rng)])
    return {'d': fdict(rng, size), 'dd': rng.random() < 0.3, 'ops': ops}


@kind('P03', 'history', g_hist)
def _(c):
    from collections import defaultdict
    src = {k: f for k, f in c['d']}
    if c['dd']: src = defaultdict(int, src)
    v = Vocab(src)
    m = dict(src)
    out, cps = dict(src), []
    exports = []
    for op, k, x in c['ops']:
        if op == 'inc': v.increment(k, x); m[k] = m.get(k, 0) + x
        elif op == 'inc1': v.increment(k); m[k] = m.get(k, 0) + 1
        elif op == 'set': v[k] = x; m[k] = x
        elif op == 'copy': cps.append([v.copy(), dict(m)])
        elif op == 'get_dict': exports.append([v.get_dict(), dict(m)])
        elif op == 'ctor': cps.append([Vocab(v.get_dict()), dict(m)])
        elif op == 'df': cps.append([Vocab(v.dataframe), dict(m)])
        elif op == 'orig': src[k] = x; out[k] = x
        elif op == 'exp':
            if exports: exports[-1][0][k] = x; exports[-1][1][k] = x
        elif op == 'copymut':
            if cps: cps[-1][0].increment(k, x); cps[-1][1][k] = cps[-1][1].get(k, 0) + x
        for what, a, b in [('vocabulary', v.get_dict(), m), ('source dictionary', dict(src), out)] + \
                [('copy', q[0].get_dict(), q[1]) for q in cps] + [('export', q[0], q[1]) for q in exports]:
            if dict(a) != b: return 'after %s %r %r the %s holds %r, expected %r' % (op, k, x, what, dict(a), b)
        if len(v) != len(m) or v.isEmpty() != (not m): return 'size'
        if abs(v.sum() - sum(m.values())) > 1e-9 * (1 + sum(abs(y) for y in m.values())) or v.sum_freq() != v.sum(): return 'total %r' % v.sum()
        if (k in v) != (k in m): return 'membership'
        if sorted(v.keys()) != sorted(m) or sorted(v.items()) != sorted(m.items()): return 'keys/items'
        if not v.equal(Vocab(m)): return 'equal()'
    import copy, pickle
    if copy.deepcopy(v).get_dict() != m or pickle.loads(pickle.dumps(v)).get_dict() != m: return 'deepcopy/pickle of a vocabulary'


IO_ITEMS = ['a', 'apple/NN', 'Ä/N', 'é', 'ß', '日本/n', '10', '-3', '1e5', 'nan', 'null', '"q"', "o'x", 'a b', 'a  b/c', '\\', 'back\\nslash', '#', '# x', '{', '}', ',', ':', '0', 'true', '/', 'a/b/c', '€', '𝄞', 'x:y', '<s>', 'ﬁ']
IO_ODD = ['', ' ', ' lead', 'trail ', 'ta\tb', 'new\nline', 'cr\r', '\u2028x', '\x85', '\x00', '\ufeffbom']
IO_FREQS = [0, 1, 2, 7, -1, 10 ** 6, 2 ** 63, -2 ** 70, 10 ** 40, 0.5, 1.0, -2.0, 0.1, 1e-7, 1e20, 1e22, 1.5e300, 5e-324, 123456789.123456789, 1 / 3, -0.0]


def g_io(rng, size):
    fmt = rng.choice(['json', 'json', 'plain', 'txt', 'default'])
    pool = IO_ITEMS + (IO_ODD if fmt in ('json', 'default') else [])
    items = rng.sample(pool, rng.randint(0, min(size + 2, len(pool))))
    return {'d': [[w, rng.choice(IO_FREQS) if rng.random() < 0.7 else freq(rng)] for w in items], 'fmt': fmt,
            'enc': rng.choice(['utf-8', 'utf-8', 'utf-16', 'utf-32', 'latin-1', 'cp1252', 'utf-8-sig']), 'own': rng.random() < 0.4, 'again': rng.random() < 0.3}


def can(w, enc):
    try: return w.encode(enc).decode(enc) == w
    except UnicodeError: return False


def same_freqs(a, b):
    return set(a) == set(b) and all(type(a[k]) is type(b[k]) and repr(a[k]) == repr(b[k]) for k in a)


@kind('P04', 'save and load', g_io)
def _(c):
    import shutil, tempfile
    d = {k: f for k, f in map(tuple, c['d']) if can(k, c['enc'])}
    plain = c['fmt'] in ('plain', 'txt')
    if plain:
        d = {k: f for k, f in d.items() if k and k == k.strip() and '\t' not in k and len(k.splitlines()) == 1}
        if c['enc'] == 'utf-8-sig' and any(k.startswith('\ufeff') for k in d): return
    v = Vocab(dict(d), encoding=c['enc'] if c['own'] else 'utf-8')
    kw = {} if c['own'] else {'encoding': c['enc']}
    fk = {} if c['fmt'] == 'default' else {'fmt': c['fmt']}
    tmp = tempfile.mkdtemp()
    try:
        fn = os.path.join(tmp, 'v')
        if c['again']: Vocab({k + '/old': 3 for k in ('x', 'y', 'z', 'a much longer item')}).save(fn, verbose=False, **dict(fk, **kw))
        v.save(fn, verbose=False, **dict(fk, **kw))
        if not same_freqs(v.get_dict(), d): return 'saving changed the vocabulary: %r' % v.get_dict()
        w = Vocab.load(fn, encoding=c['enc'], **fk)
        if not isinstance(w, Vocab): return 'not a vocabulary'
        if not same_freqs(w.get_dict(), d): return '%s in %s: loaded %r, saved %r' % (c['fmt'], c['enc'], w.get_dict(), d)
        w.save(fn, encoding=c['enc'], verbose=False, **fk)
        if not same_freqs(Vocab.load(fn, encoding=c['enc'], **fk).get_dict(), d): return 'saved again: changed'
        if w.encoding != c['enc']: return 'the loaded vocabulary is in %r' % w.encoding
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
