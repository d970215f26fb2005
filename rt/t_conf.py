"""P27: settings from user files over the defaults; sequences of reading, updating and using them"""
import copy
import os
import shutil
import tempfile
from rt.core import kind
from rt.gen import *
from nephosem.conf import ConfigLoader
from nephosem.core.terms import CorpusFormatter
from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab

KNOWN = {'Corpus-Format': ['type', 'colloc', 'token', 'line-format', 'global-columns', 'separator-line-machine', 'Type', 'node-attr', 'LEFT-Span'],
         'Span': ['left-span', 'right-span', 'left-MWUspan', 'right-MWUspan', 'other-span'], 'Data': ['corpus-path', 'x', 'X'], 'Encoding': ['file-encoding', 'outfile-encoding'], 'Mine': ['own', 'type', 'left-span']}
VALS = ['lemma/pos', 'word', 'utf-8', '', 'a = b', 'x:y', '10', '-1', '0', 'Ü', 'word,lemma,pos', r'([^\t]+)\t', '[x]', '"q"', 'a;b']


def g_file(rng, size):
    out = []
    for s in rng.sample(sorted(KNOWN), rng.randint(0, len(KNOWN))):
        ops = rng.sample(KNOWN[s], rng.randint(0, min(len(KNOWN[s]), 1 + size)))
        out.append([s, [[o, str(rng.choice([0, 1, 5, 10, -1, 300])) if s == 'Span' else rng.choice(VALS)] for o in ops]])
    return out


def g_hist(rng, size):
    n = rng.randint(1, 3)
    ops = []
    for _ in range(rng.randint(1, 3 + size)):
        ops.append([rng.choice(['update', 'update', 'settings', 'change', 'new', 'formatter', 'handler']), rng.randrange(n), rng.randrange(3)])
    return {'files': [g_file(rng, size) for _ in range(n)], 'ops': ops}


def content(f):
    d = {}
    for s, ops in f:
        for o, v in ops: d[o] = int(v) if s == 'Span' else v
    return d


def write(f, path):
    with open(path, 'w', encoding='utf-8') as h:
        for s, ops in f:
            h.write('[%s]\n' % s)
            for o, v in ops: h.write('%s = %s\n' % (o, v))
            h.write('\n')


def same(a, b):
    return set(a) == set(b) and all(a[k] == b[k] and type(a[k]) is type(b[k]) for k in a)


BASE = {'line-machine': r'([^\t]+)\t([^\t]+)', 'line-format': 'word,lemma', 'type': 'lemma', 'token': 'word/fid/lid', 'boundary-detection-mechanism': 'single', 'separator-line-machine': '</s>',
        'left-span': 2, 'right-span': 3, 'node-attr': ['word', ['x']], 'own': {'a': [1]}}


@kind('P27', 'histories', g_hist)
def _(c):
    d = tempfile.mkdtemp()
    try:
        paths = []
        for i, f in enumerate(c['files']):
            if len(set(s for s, _ in f)) != len(f) or any(len(set(o for o, _ in ops)) != len(ops) for _, ops in f): return
            paths.append(os.path.join(d, 'c%d.ini' % i)); write(f, paths[-1])
        if not paths: return
        loaders = [ConfigLoader()]
        defaults = copy.deepcopy(loaders[0].settings)
        for k in ('line-machine', 'type', 'left-span', 'right-span', 'file-encoding'):
            if k not in defaults: return 'default %r is missing' % k
        if type(defaults['left-span']) is not int: return 'a span is no number'
        mine = [copy.deepcopy(defaults)]
        held = []            # (settings held by the user, what they must be)
        base = copy.deepcopy(BASE)
        base.update({'corpus-path': d, 'output-path': os.path.join(d, 'out')})
        for op, i, j in c['ops']:
            i %= len(paths); L = j % len(loaders)
            if op == 'new':
                loaders.append(ConfigLoader(paths[i])); mine.append(content(c['files'][i]))
            elif op == 'update':
                r = loaders[L].update_config(paths[i])
                want = dict(mine[L]); want.update(content(c['files'][i]))
                if not same(r, want): return 'settings %r, expected %r' % ({k: r.get(k) for k in set(r) | set(want) if r.get(k) != want.get(k)}, {k: want.get(k) for k in set(r) | set(want) if r.get(k) != want.get(k)})
                held.append((r, copy.deepcopy(want)))
            elif op == 'settings':
                r = loaders[L].settings
                if not same(r, mine[L]): return 'settings of the loader %r, expected %r' % (r, mine[L])
                held.append((r, copy.deepcopy(mine[L])))
            elif op == 'change' and held:
                r, w = held[j % len(held)]
                for x in (r, w): x['left-span'] = 77 + i; x['new'] = [i]; x.pop('type', None)
            elif op == 'formatter':
                b = copy.deepcopy(base)
                if j % 2: b['colloc'] = 'word'
                b0 = copy.deepcopy(b)
                f = CorpusFormatter(b)
                if b != b0: return 'making a formatter changed the settings: %r' % {k: b.get(k) for k in set(b) | set(b0) if b.get(k) != b0.get(k)}
                f.settings['node-attr'][1].append('y'); f.settings['own']['a'].append(2); f.settings['type'] = 'q'
                if b != b0: return 'the formatter shares its settings with the caller'
            elif op == 'handler':
                b = copy.deepcopy(base)
                b0 = copy.deepcopy(b)
                h = [lambda: ItemFreqHandler(b), lambda: ColFreqHandler(b), lambda: TokenHandler(Vocab({'x': 1}), settings=b)][j % 3]()
                if b != b0: return 'making a handler changed the settings: %r' % {k: b.get(k) for k in set(b) | set(b0) if b.get(k) != b0.get(k)}
                h.settings['node-attr'][1].append('y'); h.settings['own']['a'].append(2); h.settings['left-span'] = 99
                if b != b0: return 'the handler shares its settings with the caller'
                b['left-span'] = 55; b['own']['a'].append(3)
                if h.settings['left-span'] != 99 or h.settings['own']['a'] != [1, 2]: return 'changing the settings changed the handler'
            for l, m in zip(loaders, mine):
                if not same(l.settings, m): return 'after %s the settings of a loader are %r, expected %r' % (op, {k: v for k, v in l.settings.items() if m.get(k) != v}, m)
            for r, w in held:
                if not same(r, w): return 'after %s settings held by the user changed' % op
            if not same(ConfigLoader().settings, defaults): return 'after %s the defaults changed' % op
    finally:
        shutil.rmtree(d, ignore_errors=True)
