"""Files and paths: assumed contracts of os.path, codecs.open and open.

A file that is read is a list of lines: a function of its path, its encoding and the state of the file system
(the ghost 'fs', one arbitrary constant until something is written).  Path functions are uninterpreted functions of
their arguments: nothing about them is assumed except that equal arguments give equal results."""
import z3
from .values import *
from .engine import *


def pathfn(name, outs=1):
    def h(eng, st, args, kw):
        ts = []
        for a in list(args) + [kw[k] for k in sorted(kw)]:
            v = eng.val(st, a)
            if isinstance(v, NoneV): continue
            if not (isinstance(v, P) and v.ty == STR): raise Unsupported('path argument %r' % (v,))
            ts.append(v.t)
        nm = 'os.path.%s/%d' % (name, len(ts))
        if outs == 1: return P(STR, eng.uf(nm, *([StrSort] * (len(ts) + 1)))(*ts))
        return TupV([P(STR, eng.uf('%s.%d' % (nm, i), *([StrSort] * (len(ts) + 1)))(*ts)) for i in range(outs)])
    return h


def file_lines(eng, path, enc):
    """(number of lines, line i) of a file"""
    n = eng.uf('file.len', StrSort, StrSort, z3.IntSort())
    l = eng.uf('file.line', StrSort, StrSort, z3.IntSort(), StrSort)
    return n(path, enc), lambda i: l(path, enc, i)


def text(eng, st, v, default=None):
    if v is None: return S(default).t
    v = eng.val(st, v)
    if isinstance(v, NoneV): return text(eng, st, None, default)
    if not (isinstance(v, P) and v.ty == STR): raise Unsupported('string argument %r' % (v,))
    return v.t


def codecs_open(eng, st, args, kw):
    mode = args[1] if len(args) > 1 else kw.get('mode')
    enc = args[2] if len(args) > 2 else kw.get('encoding')
    mode = 'r' if mode is None else conc(mode)
    path = text(eng, st, args[0])
    if mode not in ('r', 'rt'): raise Unsupported('file opened in mode %r' % mode)
    n, line = file_lines(eng, path, text(eng, st, enc, 'locale'))
    eng.assume(st, n >= 0)
    return eng.alloc(st, ListV(n, lambda i: P(STR, line(i)), STR))


def install(eng):
    E = eng.ext
    for nm in ('basename', 'dirname', 'join', 'relpath', 'abspath', 'normpath', 'expanduser'): E['os.path.' + nm] = pathfn(nm)
    E['os.path.splitext'] = pathfn('splitext', 2)
    E['os.path.split'] = pathfn('split', 2)
    E['attr:os.sep'] = E['attr:os.path.sep'] = S('/')
    E['codecs.open'] = codecs_open
