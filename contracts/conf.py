"""Contracts of nephosem.conf and of the objects that keep settings (P27)."""
import z3
from pydv.task import *
from contracts.corpus import *
from contracts.terms import strings

CO = 'nephosem.conf'
CL = CO + ':ConfigLoader'
VAL = TU('Setting')                 # the value of a setting: a text or a whole number


def of_str(eng): return eng.uf('setting.of.str', StrSort, VAL.sort)
def of_int(eng): return eng.uf('setting.of.int', StrSort, VAL.sort)


class Parsed(object):
    """a configuration file as ConfigParser reports it: sections, the options of each, the text of each option (assumed)"""
    def __init__(self, T, name='file'):
        eng = T.eng
        self.T = T
        self.sections = T.sym(TList(STR), name + '.sections')
        self.opts = Family(TList(STR), name + '.options', [StrSort])
        self.text = z3.Function(name + '.text', StrSort, StrSort, StrSort)
        self.read = []
        self.ref = T.obj('ghost:Config', optionxform=NONEV, read=ConcV('pyfn', f=self.do_read), sections=ConcV('pyfn', f=lambda e, s, a, k: e.box(s, self.sections)),
                         options=ConcV('pyfn', f=lambda e, s, a, k: e.box(s, self.opts.at([e.val(s, a[0]).t]))),
                         get=ConcV('pyfn', f=lambda e, s, a, k: P(STR, self.text(e.val(s, a[0]).t, e.val(s, a[1]).t))))
        eng.ext['configparser.ConfigParser'] = eng.ext['ConfigParser.ConfigParser'] = lambda e, s, a, k: self.ref
    def do_read(self, eng, st, args, kw):
        self.read.append(eng.val(st, args[0]))
        return NONEV
    def options(self, s): return self.opts.at([s])


@contract('P27', CL + '.read_params')
def _(T):
    eng = T.eng
    f = Parsed(T)
    sr = T.new(TDict(STR, STR), 'sett'); S0 = T.snap(sr)
    opt, sect = T.sym(STR, 'opt'), T.sym(STR, 'sect')
    for s, r in T.normal(T.call(CL + '.read_params', [f.ref, opt, sect, sr])):
        e = T.snap(sr, s)
        T.post(s, 'the option has the text of the file', z3.And(e.dom(opt), e.val(opt).t == f.text(sect.t, opt.t)))
        T.post(s, 'the other options stay', forall([STR], lambda k: z3.Implies(k.t != opt.t, z3.And(e.dom(k) == S0.dom(k), z3.Implies(S0.dom(k), e.val(k).t == S0.val(k).t)))))


def values(T):
    """settings values: the text of the file, or the whole number it denotes"""
    eng = T.eng
    def to_int(e, st, args, kw):
        v = e.val(st, args[0])
        if not (isinstance(v, P) and v.ty == VAL): raise Unsupported('int() of something that is no setting')
        return P(VAL, e.uf('setting.int', VAL.sort, VAL.sort)(v.t))
    eng.ext['builtins.int'] = to_int


def given(T, f, s, o):
    """the value that section s of the file gives the option o"""
    eng = T.eng
    v = of_str(eng)(f.text(s, o))
    return z3.If(s == strlit('Span'), eng.uf('setting.int', VAL.sort, VAL.sort)(v), v)


@contract('P27', CL + '.load_config')
def _(T):
    eng = T.eng
    values(T)
    f = Parsed(T)
    name = T.sym(STR, 'filename')

    def read_params(e, st, args, kw):
        c, opt, sect, sett = args[-4:]
        e.oblige(st, 'reads the parsed file', z3.BoolVal(isinstance(c, Ref) and c.cell == f.ref.cell))
        return [(s, NONEV) for s, r in e.setitem(st, sett, e.val(st, opt), P(VAL, of_str(e)(f.text(e.val(st, sect).t, e.val(st, opt).t))))]
    eng.callees[CL + '.read_params'] = read_params
    S = f.sections
    i, j = z3.Ints('i j')
    has = lambda i, o: mem(f.options(S.get(i).t), o)
    last = z3.Function('last.section', StrSort, z3.IntSort())
    for s, r in T.normal(T.call(CL + '.load_config', [name])):
        e = T.snap(r, s)
        T.post(s, 'the named file is read', z3.And(z3.BoolVal(bool(f.read)), *[eqv(x, name) for x in f.read]))
        T.post(s, 'exactly the options of the file', forall([STR], lambda k: e.dom(k) == z3.Exists([i], z3.And(rng(i, S.n), has(i, k)))))
        T.post(s, 'with the value of the last section that gives it', forall([STR, INT], lambda k, i: z3.Implies(z3.And(rng(i.t, S.n), has(i.t, k),
               z3.ForAll([j], z3.Implies(z3.And(i.t < j, j < S.n), z3.Not(has(j, k))))), e.val(k).t == given(T, f, S.get(i.t).t, k.t))))


def loaded(T, names):
    """contract of load_config: a new dictionary with the options of the named file"""
    eng = T.eng
    dom = z3.Function('file.has', StrSort, StrSort, z3.BoolSort())
    val = z3.Function('file.value', StrSort, StrSort, VAL.sort)
    def load(e, st, args, kw):
        f = e.val(st, args[-1])
        names.append(f)
        return [(st, e.alloc(st, DictV(STR, VAL, lambda k: dom(f.t, k.t), lambda k: P(VAL, val(f.t, k.t)))))]
    eng.callees[CL + '.load_config'] = load
    return dom, val


@contract('P27', CL + '.__init__', params=('default', 'file'))
def _(T, which):
    eng = T.eng
    names = []
    dom, val = loaded(T, names)
    f = T.sym(STR, 'filename')
    for s, r in T.normal(T.construct(CL, [] if which == 'default' else [f])):
        d = T.snap(eng.val(s, r).fields['_settings'], s)
        if which == 'file': T.post(s, 'the settings of the given file', forall([STR], lambda k: z3.And(d.dom(k) == dom(f.t, k.t), z3.Implies(d.dom(k), d.val(k).t == val(f.t, k.t)))))
        else: T.post(s, 'the settings of the default file', z3.And(z3.BoolVal(len(names) == 1), forall([STR], lambda k: z3.And(d.dom(k) == dom(names[0].t, k.t), z3.Implies(d.dom(k), d.val(k).t == val(names[0].t, k.t))))))


def loader(T, ty=VAL):
    d = T.new(TDict(STR, ty), 'defaults')
    return T.obj(CL, _settings=d), d


@contract('P27', CL + '.settings', params=('values', 'lists'))
def _(T, kind):
    """settings are handed out as a copy, also of values that can be changed"""
    eng = T.eng
    o, d = loader(T, VAL if kind == 'values' else TList(STR))
    for s, r in T.normal(T.call(CL + '.settings', [o])):
        T.post(s, 'the settings', eqv(T.snap(r, s), T.snap(d)))
        T.unchanged(s, 'the defaults are unchanged', d)
        T.post(s, 'still its own settings', z3.BoolVal(same_ref(eng.val(s, o).fields['_settings'], d)))
        T.fresh_from(s, 'a copy', r, d, o)


@contract('P27', CL + '.update_config')
def _(T):
    eng = T.eng
    names = []
    dom, val = loaded(T, names)
    o, d = loader(T)
    D = T.snap(d)
    f = T.sym(STR, 'filename')
    for s, r in T.normal(T.call(CL + '.update_config', [o, f])):
        e = T.snap(r, s)
        T.post(s, 'every option the file gives has its value', forall([STR], lambda k: z3.Implies(dom(f.t, k.t), z3.And(e.dom(k), e.val(k).t == val(f.t, k.t)))))
        T.post(s, 'every other option keeps its default', forall([STR], lambda k: z3.Implies(z3.Not(dom(f.t, k.t)), z3.And(e.dom(k) == D.dom(k), z3.Implies(D.dom(k), e.val(k).t == D.val(k).t)))))
        T.unchanged(s, 'the defaults are unchanged', d)
        T.post(s, 'still its own settings', z3.BoolVal(same_ref(eng.val(s, o).fields['_settings'], d)))
        T.fresh_from(s, 'a copy', r, d, o)


CF = 'nephosem.core.terms:CorpusFormatter'


def settings_of(T, extra):
    d = {'line-machine': T.sym(STR, 'line'), 'type': T.sym(STR, 'type'), 'token': T.sym(STR, 'token'), 'line-format': T.sym(STR, 'columns'),
         'boundary-detection-mechanism': S('single'), 'separator-line-machine': T.sym(STR, 'sep'), 'left-span': T.sym(INT, 'left'), 'node-attr': T.new(TList(STR), 'attr')}
    d.update(extra)
    return d, T.new(CDictV(d), 'settings')


@contract('P27', CF + '.__init__', params=('colloc given', 'no colloc'), label='CorpusFormatter settings')
def _(T, coll):
    eng = T.eng
    strings(T)
    eng.dyn_classes.add(CF)
    d, settings = settings_of(T, {'colloc': T.sym(STR, 'colloc')} if coll == 'colloc given' else {})
    before = dict(T.snap(settings).d)
    attr = T.snap(d['node-attr'])
    for s, r in T.construct(CF, [settings]):
        kept(T, s, settings, before, d, attr)
        if isinstance(r, Exc): continue
        o = eng.val(s, r)
        T.fresh_from(s, 'keeps a copy of the settings', o.fields['settings'], settings)


def kept(T, s, settings, before, d, attr):
    """the caller's settings are as before"""
    now = T.snap(settings, s)
    same = isinstance(now, CDictV) and list(now.d) == list(before)
    T.post(s, "the caller's settings have the same options", z3.BoolVal(same))
    if same: T.post(s, "the caller's settings have the same values", z3.And(*[z3.BoolVal(same_ref(now.d[k], before[k])) if isinstance(before[k], Ref) else eqv(now.d[k], before[k]) for k in before]))
    T.post(s, "the caller's settings have the same values", eqv(T.snap(d['node-attr'], s), attr))


@contract('P27', 'nephosem.core.handler:BaseHandler.__init__', params=('all paths', 'output path', 'no path'))
def _(T, paths):
    eng = T.eng
    d, settings = settings_of(T, dict({'corpus-path': T.sym(STR, 'corpus'), 'file-encoding': T.sym(STR, 'enc')},
                                      **({'output-path': T.sym(STR, 'out')} if paths != 'no path' else {}), **({'tmp-path': T.sym(STR, 'tmp')} if paths == 'all paths' else {})))
    before = dict(T.snap(settings).d)
    attr = T.snap(d['node-attr'])
    def formatter(e, st, args, kw):          # contract of CorpusFormatter.__init__: leaves the settings it is given as they are
        return [(st, NONEV)]
    eng.callees[CF + '.__init__'] = formatter
    eng.ext['attr:nephosem.tmpdir'] = T.sym(STR, 'tmpdir')
    cpus = T.sym(INT, 'cpus')
    T.pre(cpus.t >= 1)
    eng.ext['multiprocessing.cpu_count'] = lambda e, st, a, k: cpus
    for f in ('make_dir', 'clean_dir'): eng.callees['nephosem.utils:' + f] = lambda e, s, a, k: [(s, NONEV)]
    for s, r in T.normal(T.construct('nephosem.core.handler:BaseHandler', [settings])):
        kept(T, s, settings, before, d, attr)
        o = eng.val(s, r)
        T.fresh_from(s, 'keeps a copy of the settings', o.fields['settings'], settings)
        now = T.snap(o.fields['settings'], s)
        T.post(s, 'the same options', z3.BoolVal(isinstance(now, CDictV) and list(now.d) == list(before)))
        T.post(s, 'the same values', z3.And(*[eqv(T.snap(now.d[k], s) if isinstance(now.d[k], Ref) else now.d[k], T.snap(before[k]) if isinstance(before[k], Ref) else before[k]) for k in before]))
