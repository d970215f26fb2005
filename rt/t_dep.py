"""P25, P26: dependency templates; occurrences enumerated by brute force over the assignments of template nodes to words"""
import copy
import itertools
import os
import re
import shutil
import tempfile
from collections import Counter
from rt.core import kind
from rt.t_corpus import workers
from nephosem import Vocab
from nephosem.core.graph import SentenceGraph, PatternGraph, MacroGraph
from nephosem.models.deprel import DepRelHandler

LEM = ['a', 'b', 'c', 'ä']
POS = ['N', 'NN', 'V']
REL = ['s', 'o', 'obj', 'nmod:poss']
NPAT = ['(.+)', '(.+)', '(a|b)', '(a)', '([^a])', '.+', 'a', '(\\w+)$']
PPAT = ['(\\w+)', '(\\w+)', '(N)\\w*', 'V', '(N+)$', '\\w+']
EPAT = ['\\w+', '.+', '(s|o)$', '(o)', '\\w*(obj)', 'nmod:(poss)', '(.+)', 's|o']


def g_sentence(rng, n):
    order = list(range(1, n + 1))
    rng.shuffle(order)
    heads = [0] * n
    star = rng.random() < 0.5
    for k, w in enumerate(order):
        if k: heads[w - 1] = order[0] if star and rng.random() < .7 else rng.choice(order[:k])
        elif n > 1 and rng.random() < 0.05: heads[w - 1] = rng.choice([x for x in order if x != w])     # not a tree
    le, po, re_ = rng.choice([(LEM[:1], POS[:1], REL[:1]), (LEM[:2], POS[:2], REL[:2]), (LEM, POS, REL)])
    return [[rng.choice(le), rng.choice(po), h, rng.choice(re_)] for h in heads]


def g_template(rng, size, loose=False):
    k = rng.choice([1, 2, 2, 3, 3, 3, 4, 4])
    ids = list(range(1, k + 1))
    if rng.random() < 0.3: rng.shuffle(ids)
    edges = []
    star = rng.random() < .4
    for j in range(1, k):
        p = 0 if star else rng.randint(0, j - 1)
        edges.append([ids[p], ids[j], rng.choice(EPAT)])
    if rng.random() < .6: edges = [[a, b, rng.choice(['.+', '\\w+'])] for a, b, _ in edges]
    if rng.random() < .2: rng.shuffle(edges)
    if rng.random() < .1 and edges: rng.choice(edges)[2] = None
    nodes = []
    for i in ids:
        d = [rng.choice(NPAT), rng.choice(PPAT)]
        if rng.random() < .5: d = ['(.+)', '(\\w+)']
        nodes.append([i] + d)
    if rng.random() < .3: nodes.sort()
    if rng.random() < .08: rng.choice(nodes)[1:] = [None, None]
    return {'nodes': nodes, 'edges': edges, 'target': rng.choice(ids), 'feature': rng.choice([-1] + ids), 'gid': rng.choice([1, 1, 1, 0])}


def attrs_of(t):
    return {i: {k: r for k, r in (('lemma', a), ('pos', b)) if r is not None} for i, a, b in t['nodes']}


def valid(t):
    """a tree over its nodes, of which 1 is one, with node patterns and all"""
    ids = [x[0] for x in t['nodes']]
    if 1 not in ids or len(set(ids)) != len(ids) or t['target'] not in ids or t['feature'] not in ids + [-1]: return False
    if len(t['edges']) != len(ids) - 1 or any(a not in ids or b not in ids for a, b, _ in t['edges']): return False
    heads = {b: a for a, b, _ in t['edges']}
    if len(heads) != len(t['edges']): return False
    for i in ids:
        seen = []
        while i in heads:
            if i in seen: return False
            seen.append(i); i = heads[i]
    return True


def macro(t, filt=None, tattrs=('lemma', 'pos'), fattrs=('lemma', 'pos')):
    p = PatternGraph(attrs_of(t), {(a, b): ({} if r is None else {'deprel': r}) for a, b, r in t['edges']})
    m = MacroGraph(p, target_idx=t['target'], feature_idx=t['feature']) if filt is None else MacroGraph(p, target_idx=t['target'], feature_idx=t['feature'], target_filter=filt)
    m.id = 1
    m.target_node_attrs = {a: t['gid'] for a in tattrs}
    m.feature_node_attrs = {a: t['gid'] for a in fattrs}
    m.feature_edge_attrs = {'deprel': t['gid']}
    return m


def istree(s):
    for k in range(1, len(s) + 1):
        seen = set()
        while k != 0:
            if k in seen or not 1 <= k <= len(s): return False
            seen.add(k); k = s[k - 1][2]
    return sum(1 for w in s if w[2] == 0) >= 1


def occurrences(s, t):
    """every assignment {template node: word number}"""
    ids = [x[0] for x in t['nodes']]
    na = attrs_of(t)
    cand = {i: [k for k, w in enumerate(s, 1) if all(re.match(r, w[{'lemma': 0, 'pos': 1}[a]]) for a, r in na[i].items())] for i in ids}
    for combo in itertools.product(*[cand[i] for i in ids]):
        if len(set(combo)) != len(combo): continue
        f = dict(zip(ids, combo))
        if all(s[f[b] - 1][2] == f[a] and (r is None or re.match(r, s[f[b] - 1][3])) for a, b, r in t['edges']): yield f


def sentence_graph(s, mode='type', fname=''):
    nodes = {k: {'lemma': w[0], 'pos': w[1], 'lid': k} for k, w in enumerate(s, 1)}
    edges = {(w[2], k): {'deprel': w[3]} for k, w in enumerate(s, 1)}
    return SentenceGraph(nodes=nodes, edges=edges, mode=mode, fname=fname)


def value(rx, v, gid):
    m = re.match(rx, v)
    try: return m.group(gid)
    except Exception: return '*'


def compare(m, s, t, want):
    if len(m.matched_nodes) != len(m.matched_edges): return '%d node matches, %d edge matches' % (len(m.matched_nodes), len(m.matched_edges))
    got = Counter(frozenset((i, a['lid']) for i, a in x.items()) for x in m.matched_nodes)
    exp = Counter(frozenset(f.items()) for f in want)
    if got != exp: return 'matches %r, expected %r' % (sorted(map(sorted, got.elements())), sorted(map(sorted, exp.elements())))
    for nd, ed in zip(m.matched_nodes, m.matched_edges):
        for i, a in nd.items():
            if (a['lemma'], a['pos']) != tuple(s[a['lid'] - 1][:2]): return 'word %d is matched as %r' % (a['lid'], a)
        if sorted(ed) != sorted((a, b) for a, b, _ in t['edges']): return 'edges %r' % sorted(ed)
        for (a, b), e in ed.items():
            if e['deprel'] != s[nd[b]['lid'] - 1][3]: return 'edge %r is recorded as %r' % ((a, b), e)


def g_match(rng, size):
    return {'ss': [g_sentence(rng, rng.randint(1, min(2 + size, 8))) for _ in range(rng.choice([1, 1, 2]))], 't': g_template(rng, size)}


def x_match():
    shapes = [[1], [1, 2], [1, 2, 3], [1, 2, 3]]
    temps = []
    for ep in ('s', 's|o', None):
        temps.append({'nodes': [[1, '(.+)', '(.+)'], [2, '(.+)', '(.+)']], 'edges': [[1, 2, ep]]})
        for e2 in ('o', 's|o'):
            for tail in ('(.+)', '(a)'):
                temps.append({'nodes': [[1, '(.+)', '(.+)'], [2, '(.+)', '(.+)'], [3, tail, '(.+)']], 'edges': [[1, 2, ep], [1, 3, e2]]})
                temps.append({'nodes': [[1, '(.+)', '(.+)'], [2, '(.+)', '(.+)'], [3, tail, '(.+)']], 'edges': [[1, 2, ep], [2, 3, e2]]})
    for t in temps: t.update(target=1, feature=2, gid=1)
    for n in (1, 2, 3, 4):
        for heads in itertools.product(range(n + 1), repeat=n):
            if not istree([['a', 'N', h, 's'] for h in heads]): continue
            for labels in itertools.product('so', repeat=n):
                s = [['ab'[(k + len(heads)) % 2], 'N', h, l] for k, (h, l) in enumerate(zip(heads, labels))]
                for t in temps:
                    if len(t['nodes']) <= n + 1: yield {'ss': [s], 't': t}


@kind('P25', 'occurrences', g_match, exhaustive=x_match, weight=3)
def _(c):
    t = c['t']
    if not valid(t) or any(not istree(s) for s in c['ss']) or not c['ss']: return
    m = macro(t)
    want = []
    shift = 0
    alls = []
    for s in c['ss']:
        g = sentence_graph(s)
        for k, a in g.nodes:
            if 'lid' in a: a['lid'] += shift
        g.match_pattern(m)
        want += [{i: w + shift for i, w in f.items()} for f in occurrences(s, t)]
        alls += [[x[0], x[1], x[2], x[3]] for x in s]
        shift += len(s)
    return compare(m, alls, t, want)


def g_filter(rng, size):
    c = g_match(rng, size)
    c['filter'] = rng.sample([l + '/' + p for l in LEM for p in POS], rng.randint(0, 4))
    c['kind'] = rng.choice(['dict', 'vocab'])
    c['tattrs'] = rng.choice([['lemma', 'pos'], ['lemma', 'pos'], ['lemma'], ['lemma', 'pos', 'lid'], ['pos', 'lemma', 'fid', 'lid']])
    c['mode'] = rng.choice(['type', 'token'])
    return c


@kind('P25', 'filter', g_filter, weight=3)
def _(c):
    t, s = c['t'], c['ss'][0] if c['ss'] else []
    if not s or not valid(t) or not istree(s) or any(r is None for x in t['nodes'] for r in x[1:]): return
    at = [a for a in c['tattrs'] if a not in ('fid', 'lid')]
    filt = {('/'.join(dict(zip(('lemma', 'pos'), f.split('/')))[a] for a in at)): 1 for f in c['filter']}
    m = macro(t, Vocab(dict(filt)) if c['kind'] == 'vocab' else dict(filt), tattrs=c['tattrs'])
    na = attrs_of(t)[t['target']]
    occ = list(occurrences(s, t))
    name = lambda w: '/'.join(s[w - 1][{'lemma': 0, 'pos': 1}[a]] for a in at)
    shown = lambda w: '/'.join(value(na[a], s[w - 1][{'lemma': 0, 'pos': 1}[a]], t['gid']) for a in at)
    if any(name(f[t['target']]) != shown(f[t['target']]) for f in occ): return      # the filter speaks of whole values
    g = sentence_graph(s, mode=c['mode'], fname='f')
    g.match_pattern(m)
    want = [f for f in occ if not filt or name(f[t['target']]) in filt]
    r = compare(m, s, t, want)
    if r: return r
    if c['mode'] == 'token' and any(a.get('fid') != 'f' for nd in m.matched_nodes for a in nd.values()): return 'the file is not recorded'


# ------------------------------------------------------------------------------------------- P26
def g_build(rng, size):
    files = []
    for k in range(rng.randint(1, 3)):
        lines = []
        for _ in range(rng.randint(0, 3)):
            s = g_sentence(rng, rng.randint(1, min(2 + size, 6)))
            lines.append(s)
        files.append({'name': rng.choice(['f%d.conll', 'sub/f%d.txt', 'g.x%d.tag']) % k, 'sents': lines,
                      'seps': [rng.choice([1, 1, 1, 2, 3]) for _ in lines], 'junk': rng.random() < .3, 'lead': rng.choice([0, 0, 0, 1]), 'end': rng.random() < .7})
    ts = [g_template(rng, size) for _ in range(rng.choice([1, 1, 2, 3]))]
    for t in ts:
        for x in t['nodes']: x[1:] = [y or '(.+)' for y in x[1:]]
        t['edges'] = [[a, b, r or '.+'] for a, b, r in t['edges']]
    return {'files': files, 'ts': ts, 'mode': rng.choice(['type', 'type', 'token']), 'targets': rng.choice([None, None, 'list', 'vocab']),
            'sel': [l + '/' + p for l in LEM for p in POS if rng.random() < .5], 'cols': rng.choice(['lemma,pos,id,head,deprel', 'id,lemma,pos,deprel,head', 'head,id,lemma,deprel,pos']),
            'tattrs': rng.choice([['lemma', 'pos'], ['lemma'], ['pos', 'lemma']]), 'fattrs': rng.choice([['lemma', 'pos'], ['lemma']]),
            'split': [rng.randint(0, 2) for _ in files], 'order': rng.randint(0, 99), 'ids': rng.random() < .2}


def full(t, s, f, gid, fattrs):
    """the whole occurrence as a feature: node patterns in preorder, siblings in the order of their descriptions"""
    na = attrs_of(t)
    heads = {b: a for a, b, _ in t['edges']}
    er = {b: r for a, b, r in t['edges']}
    root = [i for i in na if i not in heads][0]
    nrep = lambda i: '/'.join(value(na[i][a], s[f[i] - 1][{'lemma': 0, 'pos': 1}[a]], gid) for a in fattrs)
    erep = lambda i: value(er[i], s[f[i] - 1][3], gid)
    def below(i):
        ch = [b for a, b, _ in t['edges'] if a == i]
        if not ch: return ''
        ch.sort(key=lambda b: erep(b) + ':' + nrep(b))
        parts = [erep(b) + ':' + ('#T#' if b == t['target'] else nrep(b)) + below(b) for b in ch]
        return '->' + (parts[0] if len(ch) == 1 else '[' + ','.join(parts) + ']')
    return ('#T#' if root == t['target'] else nrep(root)) + below(root)


class Parsed(object):
    def __init__(self, c):
        self.root = tempfile.mkdtemp()
        self.names, self.sents = [], []
        cols = c['cols'].split(',')
        for fl in c['files']:
            p = os.path.join(self.root, fl['name'])
            if p in self.names: continue
            if not os.path.isdir(os.path.dirname(p)): os.makedirs(os.path.dirname(p))
            lines = ['</s>'] * fl['lead']
            for s, k in zip(fl['sents'], fl['seps']):
                lids = []
                off = 3 if c['ids'] else 0
                for i, w in enumerate(s, 1):
                    d = {'lemma': w[0], 'pos': w[1], 'id': str(i + off), 'head': str(w[2] + off if w[2] else 0), 'deprel': w[3]}
                    lines.append('\t'.join(d[x] for x in cols))
                    lids.append(len(lines))
                    if fl['junk']: lines.append('<p>')
                lines += ['</s>'] * k
                self.sents.append((os.path.basename(fl['name']).rsplit('.', 1)[0], s, lids))
            if not fl['end']:
                while lines and lines[-1] == '</s>': lines.pop()
            with open(p, 'w', encoding='utf-8') as fh: fh.write(''.join(l + '\n' for l in lines))
            self.names.append(p)
        self.settings = {'line-machine': '\t'.join(['([^\t]+)'] * len(cols)), 'boundary-detection-mechanism': 'single', 'separator-line-machine': '</s>', 'line-format': c['cols'], 'global-columns': c['cols'], 'type': 'lemma/pos',
                         'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid', 'left-span': 1, 'right-span': 1, 'node-attr': 'lemma,pos', 'edge-attr': 'deprel',
                         'currID': 'id', 'headID': 'head', 'corpus-path': self.root, 'output-path': self.root, 'file-encoding': 'utf-8'}

    def close(self): shutil.rmtree(self.root, ignore_errors=True)


def expected(c, parsed):
    out = Counter()
    for fid, s, lids in parsed.sents:
        if not s or not istree(s): continue
        for t in c['ts']:
            na = attrs_of(t)
            for f in occurrences(s, t):
                w = s[f[t['target']] - 1]
                vals = [w[{'lemma': 0, 'pos': 1}[a]] for a in c['tattrs']]
                shown = [value(na[t['target']][a], v, t['gid']) for a, v in zip(c['tattrs'], vals)]
                if c['targets'] and c['sel']:
                    if shown != vals: return None
                    if '/'.join(vals) not in targets(c): continue
                if c['mode'] == 'token': shown += [fid, str(lids[f[t['target']] - 1])]
                if t['feature'] == -1: feat = full(t, s, f, t['gid'], c['fattrs'])
                else: feat = '/'.join(value(na[t['feature']][a], s[f[t['feature']] - 1][{'lemma': 0, 'pos': 1}[a]], t['gid']) for a in c['fattrs'])
                out['/'.join(shown), feat] += 1
    return out


def targets(c):
    return sorted(set('/'.join(dict(zip(('lemma', 'pos'), x.split('/')))[a] for a in c['tattrs']) for x in c['sel']))


def handler(c, parsed):
    tg = targets(c)
    han = DepRelHandler(parsed.settings, workers=2, mode=c['mode'], **({} if not c['targets'] else {'targets': tg if c['targets'] == 'list' else Vocab({x: 1 for x in tg})}))
    ms = [macro(t, tattrs=list(c['tattrs']) + (['fid', 'lid'] if c['mode'] == 'token' else ['lid'] if k else []), fattrs=c['fattrs']) for k, t in enumerate(c['ts'])]
    han.read_templates(macros=ms)
    return han


def cells(m):
    d = m.to_dense() if hasattr(m, 'to_dense') else m
    mx = m.matrix.tocoo()
    if len(set(m.row_items)) != len(m.row_items) or len(set(m.col_items)) != len(m.col_items): return 'labels repeated'
    out = Counter()
    for i, j, v in zip(mx.row, mx.col, mx.data): out[m.row_items[i], m.col_items[j]] += v
    return +out


def judge(m, exp):
    got = cells(m)
    if got != exp:
        if not isinstance(got, Counter): return got
        k = sorted(set(got) | set(exp), key=lambda x: (got[x] == exp[x], x))[0]
        return 'cell %r is %s, expected %s' % (k, got[k], exp[k])
    if set(m.row_items) != set(a for a, _ in exp) or set(m.col_items) != set(b for _, b in exp): return 'labels %r %r' % (m.row_items, m.col_items)


def fine(c): return c['ts'] and all(valid(t) for t in c['ts']) and all(s for fl in c['files'] for s in fl['sents']) and c['tattrs'] and c['fattrs'] and \
    all(len(fl['seps']) >= len(fl['sents']) for fl in c['files']) and len(c['split']) >= len(c['files'])


@kind('P26', 'counts', g_build, weight=3)
def _(c):
    if not fine(c): return
    p = Parsed(c)
    try:
        exp = expected(c, p)
        if not exp: return
        han = handler(c, p)
        workers(han, p.names, c['split'], c['order'])
        m = han.build_matrix_by_matches()
        r = judge(m, exp)
        if r: return r
        n = sum(len(x.matched_nodes) for x in han.macros)
        if n != sum(exp.values()): return '%d matches, expected %d' % (n, sum(exp.values()))
    finally: p.close()


@kind('P26', 'build', g_build, weight=0.5)
def _(c):
    if not fine(c): return
    p = Parsed(c)
    try:
        exp = expected(c, p)
        if not exp: return
        han = handler(c, p)
        for k in (1, 2):
            r = judge(han.build_dependency(fnames=list(p.names)), exp)
            if r: return 'run %d: %s' % (k, r)
    finally: p.close()
