"""P05, P07-P10, P28: corpus lines, frequency lists, co-occurrences, tokens; reference counts computed directly from the lines"""
import copy
import os
import random
import re
import shutil
import tempfile
from collections import Counter
from rt.core import kind
from nephosem import Vocab, ItemFreqHandler, ColFreqHandler, TokenHandler
from nephosem.core.terms import CorpusFormatter, ItemNode, TypeNode, TokenNode, Window
from nephosem.specutils import mxutils

WF = ['x', 'X', 'xx', 'y', 'Ä', '10', 'z-z', "o'"]
LE = ['x', 'y', 'z', 'Ü', 'a.b']
PO = ['N', 'V', 'ADJ']
FNS = ['f1.txt', 'f2.txt', 'sub/f1.txt', 'sub/f3.tag.txt', 'g', 'sub/x/h.txt']
COLS = ['word,pos,lemma', 'lemma,pos,word', 'pos,word,lemma', 'word,lemma,pos', 'word,pos,lemma,extra', 'extra,word,pos,lemma']
TYPES = ['lemma/pos', 'lemma', 'word/pos', 'pos/lemma', 'word', 'word/lemma/pos']


def settings(c, root):
    n = len(c['cols'].split(','))
    return {'line-machine': '\t'.join(['([^\t]+)'] * n), 'boundary-detection-mechanism': 'single', c.get('sepkey', 'separator-line-machine'): c['sep'],
            c.get('colkey', 'line-format'): c['cols'], 'type': c['type'], 'colloc': c['colloc'], 'token': c['token'], 'left-span': c['L'], 'right-span': c['R'],
            'corpus-path': os.path.join(root, 'corpus'), 'output-path': os.path.join(root, 'out'), 'file-encoding': c.get('enc', 'utf-8')}


def g_files(rng, size, hard=True):
    cols = rng.choice(COLS)
    names = cols.split(',')
    few = rng.random() < 0.6
    wf, le, po = (WF[:2], LE[:2], PO[:2]) if few else (WF, LE, PO)
    pool = [[rng.choice({'word': wf, 'lemma': le, 'pos': po, 'extra': ['e', '0']}[k]) for k in names] for _ in range(rng.randint(1, 3 if few else 6))]
    sep = rng.choice(['</s>', '<.*>', '<s>|</s>'])
    files = []
    for fn in rng.sample(FNS, rng.randint(1, min(len(FNS), 1 + size // 2))):
        lines = []
        for _ in range(rng.randint(0, 3 + 2 * size)):
            r = rng.random()
            if r < 0.80: lines.append('\t'.join(rng.choice(pool)) + rng.choice(['', '', '', '\r' if hard else '', ' ']))
            elif r < 0.88: lines.append(rng.choice(['</s>', '<s>', '<s id="1">']))
            elif r < 0.94: lines.append(rng.choice(['', 'junk', 'a\tb', '   ']))
            else: lines.append('</s>')
        files.append([fn, lines])
    t = rng.choice(TYPES)
    return {'cols': cols, 'sep': sep, 'sepkey': rng.choice(['separator-line-machine', 'single-boundary-machine']), 'colkey': rng.choice(['line-format', 'global-columns']),
            'type': t, 'colloc': t if rng.random() < 0.4 else rng.choice(TYPES), 'token': rng.choice(['word/pos/fid/lid', 'lemma/pos/fid/lid', 'lemma/fid/lid']),
            'L': rng.choice([0, 1, 1, 2, 3, 5]), 'R': rng.choice([0, 1, 1, 2, 3, 5]), 'files': files, 'enc': rng.choice(['utf-8', 'utf-8', 'latin-1', 'utf-16'])}


class Corpus(object):
    """the files on disk and what is in them according to the settings"""
    def __init__(self, c):
        self.c = c
        self.root = tempfile.mkdtemp()
        self.names = []
        os.makedirs(os.path.join(self.root, 'corpus'))
        self.settings = settings(c, self.root)
        self.segments = []          # (fid, [(lid, fields)])
        names = c['cols'].split(',')
        lm, sm = re.compile(self.settings['line-machine']), re.compile(c['sep'])
        for fn, lines in c['files']:
            p = os.path.join(self.root, 'corpus', fn)
            if not os.path.isdir(os.path.dirname(p)): os.makedirs(os.path.dirname(p))
            with open(p, 'w', encoding=c.get('enc', 'utf-8'), newline='') as f: f.write(''.join(l + '\n' for l in lines))
            self.names.append(p)
            seg = []
            fid = os.path.splitext(fn)[0]
            for k, l in enumerate(lines):
                m = lm.match(l.strip())
                if m: seg.append((k + 1, dict(zip(names, m.groups()))))
                elif sm.match(l.strip()): self.segments.append((fid, seg)); seg = []
            self.segments.append((fid, seg))
        self.t = lambda f: '/'.join(f[k] for k in c['type'].split('/'))
        self.k = lambda f: '/'.join(f[k] for k in c['colloc'].split('/'))

    def close(self): shutil.rmtree(self.root, ignore_errors=True)

    def types(self): return Counter(self.t(f) for _, s in self.segments for _, f in s)
    def collocs(self): return Counter(self.k(f) for _, s in self.segments for _, f in s)

    def occurrences(self):
        """(type, fid, lid, fields, [(distance, lid, fields)])"""
        L, R = self.c['L'], self.c['R']
        for fid, s in self.segments:
            for i, (lid, f) in enumerate(s):
                yield self.t(f), fid, lid, f, [(j - i, s[j][0], s[j][1]) for j in range(max(0, i - L), min(len(s), i + R + 1)) if j != i]


class Q(object):
    """a queue of one process"""
    def __init__(self, items=()): self.l = list(items)
    def get(self): return self.l.pop(0)
    def put(self, x): self.l.append(x)
    def qsize(self): return len(self.l)
    def empty(self): return not self.l


def workers(han, names, split, order, fork=True):
    """the worker loops run one after another in one process, each with its own copy of the handler: files as distributed by
    split, results merged in the given order"""
    from nephosem.core import handler as H
    groups = {}
    for fn, w in zip(names, split): groups.setdefault(w, []).append(fn)
    n = max([1] + [w + 1 for w in split])
    res = []
    for w in range(n):
        h = copy.deepcopy(han)
        h.__class__ = type(han.__class__.__name__, (han.__class__,), {'pid': property(lambda self, w=w: 1000 + w)})
        q, r = Q(groups.get(w, []) + [None]), Q()
        h._worker_loop(q, r)
        res += r.l
    rng = random.Random(order)
    rng.shuffle(res)
    return han._process_results(Q(res), n=len(names))


def g_split(rng, c):
    n = len(c['files'])
    c['split'] = [rng.randint(0, 2) for _ in range(n)]
    c['order'] = rng.randint(0, 99)
    return c


def vocab_of(rng, counts, extra):
    ks = sorted(counts)
    return sorted(set(rng.sample(ks, rng.randint(0, len(ks))) + ([extra] if rng.random() < .2 else [])))


def pick(c, keys, sel):
    """labels chosen by index so that the case can be shrunk"""
    return [k for i, k in enumerate(sorted(keys)) if sel[i % len(sel)]] if sel else sorted(keys)


# ------------------------------------------------------------------------------------------- P05
def g_05(rng, size):
    c = g_files(rng, size, False)
    c['line'] = [rng.choice(WF + LE + PO) for _ in c['cols'].split(',')]
    c['toks'] = [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]
    return c


@kind('P05', 'fields', g_05)
def _(c):
    s = settings(c, '/nowhere')
    names = c['cols'].split(',')
    if len(c['line']) != len(names): return
    f = CorpusFormatter(copy.deepcopy(s))
    line = '\t'.join(c['line'])
    m = f.match_line(line)
    if m is None: return 'the line does not match'
    if f.match_line('\t'.join(c['line'][:-1])) is not None: return 'a line with a missing field matches'
    field = dict(zip(names, c['line']))
    want = lambda fmt: '/'.join(field[k] for k in fmt.split('/'))
    for k in names:
        if f.get(m, k) != field[k]: return 'field %s is %r in %r' % (k, f.get(m, k), line)
    if f.get_type(m) != want(c['type']) or f.get(m, 'type') != want(c['type']): return 'type %r' % f.get_type(m)
    if f.get_colloc(m) != want(c['colloc']) or f.get(m, 'colloc') != want(c['colloc']): return 'collocate %r' % f.get_colloc(m)
    tk = c['token'].split('/')[:-2]
    wt = '/'.join([field[k] for k in tk] + ['fi', '7'])
    if f.get_token(m, 'fi', '7') != wt or f.get(m, 'token', 'fi', '7') != wt: return 'token %r' % f.get_token(m, 'fi', '7')
    it = ItemNode(match=m, formatter=f)
    if (it.word, it.lemma, it.pos) != (field['word'], field['lemma'], field['pos']): return 'item node fields'
    if it.to_type() != want(c['type']) or it.to_colloc() != want(c['colloc']): return 'item node strings %r %r' % (it.to_type(), it.to_colloc())
    if it.to_type('pos/word') != want('pos/word') or it.to_colloc('lemma') != field['lemma']: return 'item node strings of another format'
    w = ItemNode(word=field['word'], lemma=field['lemma'], pos=field['pos'], type_fmt='word/pos', colloc_fmt='pos/lemma')
    if w.to_type() != want('word/pos') or w.to_colloc() != want('pos/lemma') or str(w) != '\t'.join([field['word'], field['pos'], field['lemma']]): return 'item node of named fields'
    tn = TypeNode(match=m, formatter=f)
    if str(tn) != want(c['type']) or tn.tokens != []: return 'type node %r' % str(tn)
    t2 = TypeNode(type_str=want('lemma/pos'), type_fmt='lemma/pos')
    if (t2.lemma, t2.pos, t2.word) != (field['lemma'], field['pos'], None) or str(t2) != want('lemma/pos'): return 'type node of a string'
    t2 = TypeNode(word=field['word'], lemma=field['lemma'], pos=field['pos'], type_fmt='word/pos')
    if str(t2) != want('word/pos') or (t2.word, t2.lemma, t2.pos) != (field['word'], field['lemma'], field['pos']): return 'type node of fields'
    to = TokenNode(match=m, formatter=f, fid='fi', lid=12)
    if str(to) != '/'.join([field[k] for k in tk] + ['fi', '12']) or to.lid != '12' or to.fid != 'fi': return 'token node %r' % str(to)
    to = TokenNode(token_str='%s/%s/ff/3' % (field['lemma'], field['pos']), token_fmt='lemma/pos/fid/lid')
    if (to.lemma, to.pos, to.fid, to.lid, to.word) != (field['lemma'], field['pos'], 'ff', '3', None): return 'token node of a string'
    # merging keeps all tokens in order, and none is shared
    mk = lambda i: TokenNode(token_str='a/N/f%d/%d' % (i, i), token_fmt='lemma/pos/fid/lid', lcollocs=[ItemNode(word='l%d' % i)], rcollocs=[ItemNode(word='r%d' % j) for j in range(i)])
    tns, k = [], 0
    for n in c['toks']:
        tns.append(TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=[mk(k + i) for i in range(n)])); k += n
    before = [[str(x) for x in t.tokens] for t in tns]
    g = TypeNode.merge(tns)
    if [str(x) for x in g.tokens] != ['a/N/f%d/%d' % (i, i) for i in range(k)]: return 'merged tokens %r' % g.tokens
    if [([y.word for y in x.lcollocs], [y.word for y in x.rcollocs]) for x in g.tokens] != [(['l%d' % i], ['r%d' % j for j in range(i)]) for i in range(k)]: return 'merged collocates'
    if str(g) != 'a/N' or g.freq != k: return 'merged type'
    if [[str(x) for x in t.tokens] for t in tns] != before: return 'merging changed its arguments'
    try: TypeNode.merge([tns[0], TypeNode(type_str='b/N', type_fmt='lemma/pos')])
    except ValueError: return
    return 'nodes of different types were merged'


# ------------------------------------------------------------------------------------------- P07
@kind(['P07', 'P10'], 'frequency list', lambda rng, size: g_split(rng, g_files(rng, size)), weight=2)
def _(c):
    if len(c['split']) != len(c['files']): return
    C = Corpus(c)
    try:
        h = ItemFreqHandler(C.settings, workers=1)
        want = dict(C.types())
        got = dict(workers(h, C.names, c['split'], c['order']))
        if got != want: return 'frequencies %r, expected %r' % (got, want)
    finally: C.close()


def g_real(rng, size):
    c = g_files(rng, min(size, 4))
    c['workers'] = rng.choice([1, 2, 3])
    c['how'] = rng.choice(['list', 'list', 'dir', 'fnames', 'fnames'])
    c['rsel'] = [rng.random() < .8 for _ in range(4)]
    c['csel'] = [rng.random() < .6 for _ in range(4)] if rng.random() < .5 else None
    return c


def source(c, C):
    if c['how'] == 'dir': return None
    if c['how'] == 'list': return list(C.names)
    p = os.path.join(C.root, 'l.fnames')
    with open(p, 'w', encoding=c['enc']) as f:
        f.write('# files\n\n' + ''.join((n if i % 2 or '/' in fn else fn) + '\n' for i, (n, (fn, _)) in enumerate(zip(C.names, c['files']))))
    return p


@kind(['P07', 'P10'], 'frequency list of real worker processes', g_real, weight=.34)
def _(c):
    C = Corpus(c)
    try:
        h = ItemFreqHandler(C.settings, workers=c['workers'])
        v = h.build_item_freq(source(c, C))
        if v.get_dict() != dict(C.types()): return 'frequencies %r, expected %r' % (v.get_dict(), dict(C.types()))
    finally: C.close()


# ------------------------------------------------------------------------------------------- P08
def g_col(rng, size):
    c = g_split(rng, g_files(rng, size))
    c['rsel'] = [rng.random() < .7 for _ in range(4)]
    c['csel'] = [rng.random() < .7 for _ in range(4)] if rng.random() < .5 else None
    return c


def pairs(C, rows, cols):
    n = Counter()
    for t, fid, lid, f, ctx in C.occurrences():
        if t in rows:
            for _, _, g in ctx:
                if cols is None or C.k(g) in cols: n[t, C.k(g)] += 1
    return n


def check_col(m, want, rows, cols):
    if m is None: return 'no matrix, expected %r' % want if want else None
    if m.row_items != sorted(rows): return 'rows %r, expected %r' % (m.row_items, sorted(rows))
    wc = sorted(cols) if cols is not None else sorted(set(k for _, k in want))
    if m.col_items != wc: return 'columns %r, expected %r' % (m.col_items, wc)
    a = m.matrix.toarray()
    got = {(t, k): int(a[i, j]) for i, t in enumerate(m.row_items) for j, k in enumerate(m.col_items) if a[i, j] != 0}
    if got != dict(want): return 'counts %r, expected %r' % (got, dict(want))


@kind(['P08', 'P10'], 'co-occurrences', g_col, weight=2)
def _(c):
    if len(c['split']) != len(c['files']): return
    C = Corpus(c)
    try:
        rows = pick(c, C.types(), c['rsel']) or ['none/N']
        cols = None
        if c['csel'] is not None: cols = pick(c, C.collocs(), c['csel']) or ['none/N']
        h = ColFreqHandler(C.settings, workers=1, row_vocab=Vocab({k: 1 for k in rows}), col_vocab=Vocab({k: 1 for k in cols}) if cols else None)
        m = workers(h, C.names, c['split'], c['order'])
        return check_col(m, pairs(C, rows, cols), rows, cols)
    finally: C.close()


@kind(['P08', 'P10'], 'co-occurrences of real worker processes', g_real, weight=.34)
def _(c):
    C = Corpus(c)
    try:
        rows = pick(c, C.types(), c['rsel']) or ['none/N']
        cols = None
        if c['csel'] is not None: cols = pick(c, C.collocs(), c['csel']) or ['none/N']
        h = ColFreqHandler(C.settings, workers=c['workers'])
        rv, cv = Vocab({k: 1 for k in rows}), Vocab({k: 1 for k in cols}) if cols else None
        m = h.build_col_freq(source(c, C), row_vocab=rv, col_vocab=cv)
        msg = check_col(m, pairs(C, rows, cols), rows, cols)
        if msg: return msg
        if rv.get_dict() != {k: 1 for k in rows} or (cv is not None and cv.get_dict() != {k: 1 for k in cols}): return 'the vocabularies changed'
    finally: C.close()


def small_sequences():
    """every sequence of up to 5 lines over two words and a boundary, spans 0..2"""
    import itertools
    for n in range(1, 6):
        for s in itertools.product('ab|', repeat=n):
            if n == 5 and s[0] != 'a': continue
            for L in (0, 1, 2):
                for R in (0, 1, 2):
                    yield {'s': ''.join(s), 'L': L, 'R': R}


def small(c):
    return {'cols': 'word,pos,lemma', 'sep': '</s>', 'type': 'lemma', 'colloc': 'lemma', 'token': 'word/fid/lid', 'L': c['L'], 'R': c['R'],
            'files': [['f.txt', ['</s>' if x == '|' else 'W%d\tN\t%s' % (i, x) for i, x in enumerate(c['s'])]]]}


@kind('P08', 'co-occurrences in every short sequence', None, exhaustive=small_sequences)
def _(c):
    C = Corpus(small(c))
    try:
        for cols in (None, ['b']):
            h = ColFreqHandler(C.settings, workers=1, row_vocab=Vocab({'a': 1, 'b': 1}), col_vocab=Vocab({k: 1 for k in cols}) if cols else None)
            msg = check_col(workers(h, C.names, [0], 0), pairs(C, ['a', 'b'], cols), ['a', 'b'], cols)
            if msg: return msg
    finally: C.close()


# ------------------------------------------------------------------------------------------- P09
def tokens(C, queries, cols):
    res = []
    for t, fid, lid, f, ctx in C.occurrences():
        if t in queries:
            keep = [(d, l, g) for d, l, g in ctx if cols is None or C.k(g) in cols]
            full = dict(f, fid=fid, lid=str(lid))
            res.append((t, '/'.join(full[k] for k in C.c['token'].split('/')), fid, str(lid),
                        [(C.k(g), g['word'], g['lemma'], g['pos'], l) for d, l, g in keep if d < 0], [(C.k(g), g['word'], g['lemma'], g['pos'], l) for d, l, g in keep if d > 0]))
    return res


def check_tokens(t2t, want, queries):
    if sorted(t2t) != sorted(queries): return 'types %r, expected %r' % (sorted(t2t), sorted(queries))
    flat = lambda k: (k.to_colloc(), k.word, k.lemma, k.pos, k.lid)
    got = [(t, str(x), x.fid, x.lid, [flat(k) for k in x.lcollocs], [flat(k) for k in x.rcollocs]) for t, tn in t2t.items() for x in tn.tokens]
    if Counter(map(repr, got)) != Counter(map(repr, want)):
        a, b = Counter(map(repr, got)) - Counter(map(repr, want)), Counter(map(repr, want)) - Counter(map(repr, got))
        return 'tokens: unexpected %s, missing %s' % (list(a.elements())[:2], list(b.elements())[:2])
    for t, tn in t2t.items():
        if tn.freq != len([1 for w in want if w[0] == t]): return 'frequency of %s' % t


def check_tokmx(m, want):
    """P28: one row per token, the cells are positions of the context words"""
    rows = {}
    for t, s, fid, lid, l, r in want: rows.setdefault(s, []).append((l, r))
    if sorted(m.row_items) != sorted(rows): return 'rows %r, expected %r' % (sorted(m.row_items), sorted(rows))
    if sorted(m.col_items) != sorted(set(k[0] for v in rows.values() for l, r in v for k in l + r)): return 'columns %r' % sorted(m.col_items)
    if len(set(m.row_items)) != len(m.row_items) or len(set(m.col_items)) != len(m.col_items): return 'labels occur twice'
    a = m.matrix.toarray()
    for i, s in enumerate(m.row_items):
        ok = False
        for l, r in rows[s]:
            pos = {}
            for q, k in enumerate(l): pos.setdefault(k[0], set()).add(q - len(l))
            for q, k in enumerate(r): pos.setdefault(k[0], set()).add(q + 1)
            if all((a[i, j] in pos[k]) if k in pos else a[i, j] == 0 for j, k in enumerate(m.col_items)): ok = True
        if not ok: return 'row %s holds %r, context %r' % (s, {k: int(a[i, j]) for j, k in enumerate(m.col_items) if a[i, j]}, rows[s])


@kind(['P09', 'P10'], 'tokens', g_col, weight=2)
def _(c):
    if len(c['split']) != len(c['files']): return
    C = Corpus(c)
    try:
        q = [k for k in pick(c, C.types(), c['rsel'])] or ['none' + '/N' * c['type'].count('/')]
        cols = None
        if c['csel'] is not None: cols = pick(c, C.collocs(), c['csel']) or ['none/N']
        h = TokenHandler(Vocab({k: 1 for k in q}), settings=C.settings, workers=1, col_vocab=Vocab({k: 1 for k in cols}) if cols else None)
        return check_tokens(workers(h, C.names, c['split'], c['order']), tokens(C, q, cols), q)
    finally: C.close()


@kind('P09', 'tokens in every short sequence', None, exhaustive=small_sequences)
def _(c):
    C = Corpus(small(c))
    try:
        for cols in (None, ['b']):
            h = TokenHandler(Vocab({'a': 1, 'b': 1}), settings=C.settings, workers=1, col_vocab=Vocab({k: 1 for k in cols}) if cols else None)
            msg = check_tokens(workers(h, C.names, [0], 0), tokens(C, ['a', 'b'], cols), ['a', 'b'])
            if msg: return msg
    finally: C.close()


@kind(['P09', 'P10', 'P28'], 'tokens of real worker processes', g_real, weight=.34)
def _(c):
    C = Corpus(c)
    try:
        q = [k for k in pick(c, C.types(), c['rsel'])] or ['none' + '/N' * c['type'].count('/')]
        cols = None
        if c['csel'] is not None: cols = pick(c, C.collocs(), c['csel']) or ['none/N']
        h = TokenHandler(Vocab({k: 1 for k in q}), settings=C.settings, workers=c['workers'], col_vocab=Vocab({k: 1 for k in cols}) if cols else None)
        want = tokens(C, q, cols)
        src = source(c, C)
        try: m = h.retrieve_tokens(src)
        except ValueError:          # no context word at all: there is no matrix
            if any(w[4] or w[5] for w in want): raise
            m = None
        msg = check_tokens(h.type2toks, want, q) or (check_tokmx(m, want) if m is not None else None)
        if msg: return msg
        if len(str(c)) % 3 == 0 and m is not None:
            h.retrieve_tokens(src)
            return check_tokens(h.type2toks, want, q)
    finally: C.close()


# ------------------------------------------------------------------------------------------- P28
def g_nodes(rng, size):
    toks = []
    for i in range(rng.randint(1, 2 + size // 2)):
        toks.append([rng.randint(0, 2), [rng.choice('abcdA') for _ in range(rng.randint(0, 4))], [rng.choice('abcdA') for _ in range(rng.randint(0, 4))]])
    return {'toks': toks, 'fmt': rng.choice(['lemma/pos', 'lemma', 'word', None]), 'list': rng.random() < .5}


@kind('P28', 'token matrix', g_nodes, weight=3)
def _(c):
    want, nodes = [], {}
    fmt = c['fmt'] or 'lemma/pos'
    it = lambda x: ItemNode(word=x, lemma=x.lower(), pos='N')
    name = lambda x: '/'.join({'word': x, 'lemma': x.lower(), 'pos': 'N'}[k] for k in fmt.split('/'))
    for n, (t, l, r) in enumerate(c['toks']):
        tp = 't%d/N' % t
        nodes.setdefault(tp, TypeNode(type_str=tp, type_fmt='lemma/pos')).append_token(
            TokenNode(token_str='%s/f/%d' % (tp, n), token_fmt='lemma/pos/fid/lid', lcollocs=[it(x) for x in l], rcollocs=[it(x) for x in r]))
        want.append((tp, '%s/f/%d' % (tp, n), 'f', str(n), [(name(x),) for x in l], [(name(x),) for x in r]))
    if not any(w[4] or w[5] for w in want): return
    m = mxutils.transform_nodes_to_matrix(list(nodes.values()) if c['list'] else nodes, *([c['fmt']] if c['fmt'] else []))
    return check_tokmx(m, want)
