"""Configuration: session changes over saved values, option by option.

A two-level dictionary {section: {option: value}} is seen as the set of its
sections and the map from (section, option) to value; the parser of the
configuration file likewise."""
import configparser

from contracts._common import *

try:
    import z3
except ImportError:
    z3 = None
CFG = 'nimble.core.configuration:'
CLS = CFG + 'SessionConfiguration'
TWO = dict(secs=Set(Str()), vals=Dict(Tup(Str(), Str()), Str()))
CONF = Obj('Conf', changes=Obj('Two', **TWO), parser=Obj('Parser', **TWO),
           file=Obj('Parser', **TWO), called=List(Str()))


def inner(e, o, sec):
    """the options of one section, as a dictionary of its own"""
    from pyvc.values import HDict, zsort, PStr
    ks = zsort('str')
    v = o.fields['vals']
    mk = zsort(('tuple', ('str', 'str'))).constructor(0)
    dom = e.fresh('opts', z3.ArraySort(ks, z3.BoolSort()))
    val = e.fresh('optvals', z3.ArraySort(ks, ks))
    n = e.fresh('optn', z3.IntSort())
    x = z3.Const('x!in', ks)
    s = e.z(sec, 'str')
    e.dsym(v, ('tuple', ('str', 'str')), 'str')
    e.assume(z3.ForAll([x], z3.And(
        z3.Select(dom, x) == z3.Select(v.dom, mk(s, x)),
        z3.Implies(z3.Select(dom, x), z3.And(n > 0, z3.Select(val, x) ==
                                             z3.Select(v.val, mk(s, x))))),
        patterns=[z3.Select(dom, x)]))
    e.assume(n >= 0)
    d = e.new(HDict(None, 'str', 'str', dom, val, n))
    e.denum(d)
    # each pair of the section is one of its options
    srt = zsort(('tuple', ('str', 'str')))
    p = z3.Const('p!in', srt)
    a, b = srt.accessor(0, 0)(p), srt.accessor(0, 1)(p)
    if z3.is_const(v.dom):
        e.assume(z3.ForAll([p], z3.Implies(
            z3.And(z3.Select(v.dom, p), a == s), z3.And(
                z3.Select(dom, b), z3.Select(val, b) ==
                z3.Select(v.val, p))), patterns=[z3.Select(v.dom, p)]))
    return d


def drop(e, o, sec):
    """remove a section and its options"""
    from pyvc.values import HDict, zsort
    v = o.fields['vals']
    e.dsym(v, ('tuple', ('str', 'str')), 'str')
    srt = zsort(('tuple', ('str', 'str')))
    dom = e.fresh('left', z3.ArraySort(srt, z3.BoolSort()))
    p = z3.Const('p!dr', srt)
    s = e.z(sec, 'str')
    e.assume(z3.ForAll([p], z3.Select(dom, p) == z3.And(
        z3.Select(v.dom, p), srt.accessor(0, 0)(p) != s),
        patterns=[z3.Select(dom, p)]))
    n = e.fresh('leftn', z3.IntSort())
    e.assume(n >= 0)
    e.sdel(o.fields['secs'], sec)
    e.setattr(o, 'vals', e.new(HDict(None, ('tuple', ('str', 'str')), 'str',
                                     dom, v.val, n)))


def view(e, o, sec):
    from pyvc.values import HObj
    r = e.new(HObj('Section'))
    r.fields['two'], r.fields['sec'] = o, sec
    return r


def getsec(e, o, a, k):
    if not e.decide(tz(e.shas(o.fields['secs'], a[0]))):
        raise e.exc('KeyError')
    return view(e, o, a[0])


def tz(v):
    from pyvc.ops import toz
    return toz(v)


def two_models(eng):
    from pyvc.loops import IterV
    from pyvc.values import PyExc, HObj, HDict
    import configparser
    m = eng.models
    for x in ('NoSectionError', 'NoOptionError', 'Error'):
        m[('value', 'configparser.' + x)] = \
            lambda e, x=x: getattr(configparser, x)

    def pexc(e, cls):
        return PyExc(cls, (), None)

    def put(e, o, a, k):
        v = e.force(a[1])
        if not (isinstance(v, HDict) and v.items == {}):
            raise NotImplementedError('a section set to a dictionary')
        e.sadd(o.fields['secs'], a[0])
    m[('Two', '__contains__')] = lambda e, o, a, k: e.shas(
        o.fields['secs'], a[0])
    m[('Two', '__getitem__')] = getsec
    m[('Two', '__setitem__')] = put
    m[('Two', '__delitem__')] = lambda e, o, a, k: drop(e, o, a[0])

    def count(e, o, a, k):
        e.denum(o.fields['secs'])
        return e.b_len([o.fields['secs']], {})
    m[('Two', '__len__')] = count

    def items(e, o, a, k):
        it = e.iterable(o.fields['secs'])
        return IterV(it.n, lambda j: (lambda s: (s, view(e, o, s)))(
            it.get(j)), None)
    m[('Two', 'items')] = items
    m[('Two', '__iter__')] = lambda e, o, a, k: o.fields['secs']

    def pair(o, x):
        return (o.fields['sec'], x)

    def two(o):
        return o.fields['two'].fields['vals']

    def sget(e, o, a, k):
        if not e.decide(tz(e.dhas(two(o), pair(o, a[0])))):
            raise e.exc('KeyError')
        return e.dval(two(o), pair(o, a[0]))
    m[('Section', '__contains__')] = lambda e, o, a, k: e.dhas(
        two(o), pair(o, a[0]))
    m[('Section', '__getitem__')] = sget
    m[('Section', '__setitem__')] = lambda e, o, a, k: e.dset(
        two(o), pair(o, a[0]), a[1])

    def sdelitem(e, o, a, k):
        sget(e, o, a, k)
        e.ddel(two(o), pair(o, a[0]))
    m[('Section', '__delitem__')] = sdelitem
    m[('Section', '__len__')] = lambda e, o, a, k: e.b_len(
        [inner(e, o.fields['two'], o.fields['sec'])], {})
    m[('Section', '__iter__')] = lambda e, o, a, k: inner(
        e, o.fields['two'], o.fields['sec'])
    m[('Section', 'copy')] = lambda e, o, a, k: inner(
        e, o.fields['two'], o.fields['sec'])
    m[('Section', 'items')] = lambda e, o, a, k: e.call(e.getattr(inner(
        e, o.fields['two'], o.fields['sec']), 'items'), [], {})

    # the parser
    def pget(e, o, a, k):
        if not e.decide(tz(e.shas(o.fields['secs'], a[0]))):
            raise pexc(e, configparser.NoSectionError)
        if not e.decide(tz(e.dhas(o.fields['vals'], (a[0], a[1])))):
            raise pexc(e, configparser.NoOptionError)
        return e.dval(o.fields['vals'], (a[0], a[1]))

    def pset(e, o, a, k):
        if not e.decide(tz(e.shas(o.fields['secs'], a[0]))):
            raise pexc(e, configparser.NoSectionError)
        e.dset(o.fields['vals'], (a[0], a[1]), a[2])

    def add(e, o, a, k):
        if e.decide(tz(e.shas(o.fields['secs'], a[0]))):
            raise pexc(e, configparser.Error)
        e.sadd(o.fields['secs'], a[0])

    def write(e, o, a, k):
        f = a[0].fields['file']
        e.setattr(f, 'secs', e.snapshot(o.fields['secs']))
        e.setattr(f, 'vals', e.snapshot(o.fields['vals']))
    m[('Parser', 'get')] = pget
    m[('Parser', 'set')] = pset
    m[('Parser', 'has_section')] = lambda e, o, a, k: e.mkbool(e.shas(
        o.fields['secs'], a[0]))
    m[('Parser', 'sections')] = lambda e, o, a, k: o.fields['secs']
    m[('Parser', 'add_section')] = add
    m[('Parser', '__getitem__')] = getsec
    m[('Parser', 'write')] = write
    eng.assumptions.add('a two-level dictionary is the set of its sections '
                        'and a map over pairs; the parser has no DEFAULT '
                        'section and no interpolation')


OK = ['all(p[0] in self.changes.secs for p in self.changes.vals)',
      'all(any(p[0] == s for p in self.changes.vals) for s in '
      'self.changes.secs)',
      'all(p[0] in self.parser.secs for p in self.parser.vals)']


class Two:
    def __init__(self, d):
        self.secs = set(d)
        self.vals = {(s, o): v for s in d for o, v in d[s].items()}


def flat(p):
    return {s: dict(p[s].items()) for s in p.sections()}


class NConf:
    def __init__(self, ses, fil):
        self.ses, self.fil = ses, fil
        self.changes, self.parser, self.file = Two(ses), Two(fil), Two(fil)
        self.called = []

    def __deepcopy__(self, memo):
        import copy
        r = NConf(copy.deepcopy(self.ses), copy.deepcopy(self.fil))
        return r


def gen_conf(rng):
    import tempfile, os
    S, O, W = ['A', 'B', 'C'], ['x', 'y'], ['1', '2', '']

    def d(sec, opt):
        return {s: {o: rng.choice(W) for o in O if rng.random() < opt}
                for s in S if rng.random() < sec}
    ses = {s: o for s, o in d(.6, .7).items() if o}
    return NConf(ses, d(.6, .6))


def native_conf(fn):
    def go(env):
        import os
        import tempfile
        from nimble.core.configuration import SessionConfiguration
        c = env['self']
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'c.ini')
            s = SessionConfiguration(path)
            for sec, opts in c.fil.items():
                s.parser.add_section(sec)
                for o, v in opts.items():
                    s.parser.set(sec, o, v)
            with open(path, 'w') as f:
                s.parser.write(f)
            s.changes = {k: dict(v) for k, v in c.ses.items()}
            for sec in S3:
                for o in ('x', 'y'):
                    s.hook(sec, o, hooked(c))
            try:
                return fn(s, env)
            finally:
                c.changes = Two(s.changes)
                c.parser = Two(flat(s.parser))
                c.file = Two(flat(SessionConfiguration(path).parser))
    return go


S3 = 'ABC'


def hooked(c):
    def call(value):
        c.called.append(value)
    return call


def runm(name, names):
    def run(eng, env):
        from pyvc.values import FuncVal, HObj, HDict, HSet, Builtin, IterV
        mod, cls, node = eng.loader.target(CLS + '.' + name)
        c = env['self']
        o = eng.new(HObj(cls))
        o.fields['changes'] = c.fields['changes']
        o.fields['parser'] = c.fields['parser']
        o.fields['path'] = eng.freshv('path', 'str')
        o.fields['hooks'] = hk = eng.new(HObj('Hooks'))

        def hook(e, a, k):
            e.list_append(c.fields['called'], a[0])
        h = Builtin('hook', lambda a, k: hook(eng, a, k))
        eng.models[('Hooks', '__contains__')] = lambda e, ob, a, k: True
        eng.models[('Hooks', '__getitem__')] = lambda e, ob, a, k: h
        eng.models[('Hooks', 'get')] = lambda e, ob, a, k: h
        eng.fileobj = c.fields['file']
        try:
            return eng.callfunc(FuncVal(node, mod, None, cls, name),
                                [o] + [env[x] for x in names], {})
        finally:
            ch = o.fields['changes']
            if isinstance(ch, HDict):
                if ch.items != {}:
                    raise NotImplementedError
                ch = eng.new(HObj('Two'))
                ch.fields['secs'] = eng.symset('str', lambda x: False)
                ch.fields['vals'] = eng.new(HDict(items={}))
                eng.dsym(ch.fields['vals'], ('tuple', ('str', 'str')), 'str')
            if ch is not c.fields['changes']:
                eng.setattr(c, 'changes', ch)
    return run


def interfaces(eng):
    """which interface a section names is outside: any of the answers"""
    two_models(eng)

    def find(e, a, k):
        from pyvc.values import HObj, PyExc
        if e.decide(e.freshv('nointerface', 'bool').e):
            raise PyExc(e.loader.module('nimble.exceptions').defs[
                'InvalidArgumentValue'], (), None)
        if e.decide(e.freshv('unavailable', 'bool').e):
            raise PyExc(e.loader.module('nimble.exceptions').defs[
                'PackageException'], (), None)
        return e.new(HObj('Interface'))
    eng.summaries['nimble.core._learnHelpers:findBestInterface'] = find
    eng.models[('Interface', 'getCanonicalName')] = \
        lambda e, o, a, k: e.freshv('canonical', 'str')
    eng.models[('Interface', 'optionNames')] = \
        lambda e, o, a, k: List(Str()).sym(e, 'options')


V1 = '(C.vals[({0}, {1})] if ({0}, {1}) in C.vals else P.vals[({0}, {1})])'
PAIR = '(section, option)'
INC = PAIR + ' in self.changes.vals'
INP = PAIR + ' in self.parser.vals'
SAME_P = ('the saved values stay', 'len(self.parser.vals) == len(old('
          'self.parser.vals)) and all(p in old(self.parser.vals) and '
          'self.parser.vals[p] == old(self.parser.vals)[p] for p in '
          'self.parser.vals) and all(p in self.parser.vals for p in '
          'old(self.parser.vals))')
SAME_C = ('the session values stay', 'all(p in old(self.changes.vals) and '
          'self.changes.vals[p] == old(self.changes.vals)[p] for p in '
          'self.changes.vals) and all(p in self.changes.vals for p in '
          'old(self.changes.vals))')
SAME_F = ('the file stays', 'all(p in old(self.file.vals) and '
          'self.file.vals[p] == old(self.file.vals)[p] for p in '
          'self.file.vals) and all(p in self.file.vals for p in '
          'old(self.file.vals))')
INV = [(f'sections and options agree ({i})', x)
       for i, x in enumerate(OK[:2])]


def gen_so(rng):
    return dict(self=gen_conf(rng), section=rng.choice('ABCD'),
                option=rng.choice('xyz'))


contract('config_get_option', 'C17', CLS + '.get',
         dict(self=CONF, section=Str(), option=Str()),
         run=runm('get', ['section', 'option']), overrides=two_models,
         gen=gen_so, requires=OK,
         native=native_conf(lambda s, env: s.get(env['section'],
                                                 env['option'])),
         raises={'NoSectionError': f'not {INC} and not section in '
                 'self.parser.secs',
                 'NoOptionError': f'not {INC} and section in '
                 f'self.parser.secs and not {INP}'},
         ensures=[('the session value first', f'implies({INC}, result == '
                   f'self.changes.vals[{PAIR}])'),
                  ('then the saved one', f'implies(not {INC}, result == '
                   f'self.parser.vals[{PAIR}])'), SAME_P, SAME_C, SAME_F])

contract('config_get_section', 'C17', CLS + '.get',
         dict(self=CONF, section=Str()),
         run=runm('get', ['section']), overrides=two_models,
         gen=lambda rng: {k: v for k, v in gen_so(rng).items()
                          if k != 'option'}, requires=OK,
         native=native_conf(lambda s, env: s.get(env['section'])),
         raises={'NoSectionError': 'not section in self.parser.secs and '
                 'not section in self.changes.secs'},
         ensures=[('exactly the options of the section', 'all((section, o) '
                   'in self.changes.vals or (section, o) in '
                   'self.parser.vals for o in result) and all(implies('
                   'p[0] == section, p[1] in result) for p in '
                   'self.changes.vals) and all(implies(p[0] == section, '
                   'p[1] in result) for p in self.parser.vals)'),
                  ('the session values first', 'all(result[o] == '
                   '(self.changes.vals[(section, o)] if (section, o) in '
                   'self.changes.vals else self.parser.vals[(section, o)])'
                   ' for o in result)'), SAME_P, SAME_C, SAME_F],
         pool=[PoolItem('all(item(j)[0] in D for j in range(k))', D='dict!'),
               PoolItem('all((section, o) in self.changes.vals or any('
                        'item(j)[0] == o for j in range(k)) for o in D)',
                        D='dict!'),
               PoolItem('all(implies(p[0] == section, p[1] in D) for p in '
                        'self.changes.vals)', D='dict!'),
               PoolItem('all(implies((section, o) in self.changes.vals, '
                        'D[o] == self.changes.vals[(section, o)]) for o in '
                        'D)', D='dict!'),
               PoolItem('all(implies(not (section, o) in '
                        'self.changes.vals, D[o] == self.parser.vals['
                        '(section, o)]) for o in D)', D='dict!')])


def gen_set(rng):
    return dict(gen_so(rng), value=rng.choice(['1', '2', 'new']))


contract('config_set', 'C17', CLS + '.set',
         dict(self=CONF, section=Str(), option=Str(), value=Str()),
         run=runm('set', ['section', 'option', 'value']),
         overrides=interfaces, gen=gen_set, requires=OK,
         native=native_conf(lambda s, env: s.set(
             env['section'], env['option'], env['value'])),
         raises={'InvalidArgumentValue': None},
         exc_ensures=[SAME_C, SAME_P, SAME_F],
         ensures=INV + [
             ('reading it gives the value', f'(self.changes.vals[{PAIR}] if '
              f'{INC} else self.parser.vals[{PAIR}]) == value and ({INC} or '
              f'{INP})'),
             ('no other option changes', f'all(p == {PAIR} or (p in old('
              'self.changes.vals) and self.changes.vals[p] == old('
              'self.changes.vals)[p]) for p in self.changes.vals) and all('
              f'p == {PAIR} or p in self.changes.vals for p in old('
              'self.changes.vals))'), SAME_P, SAME_F,
             ('the hook of the option is called with the value',
              'implies(len(self.called) > 0, len(self.called) == '
              'len(old(self.called)) + 1 and self.called['
              'len(old(self.called))] == value)')])

SAVED = {'config_save_option': (['section', 'option'],
                                f'p == {PAIR}'),
         'config_save_section': (['section'], 'p[0] == section'),
         'config_save_all': ([], 'True')}


def opened(eng):
    two_models(eng)

    def op(e, a, k):
        from pyvc.values import HObj
        h = e.new(HObj('File'))
        h.fields['file'] = e.fileobj
        return h
    eng.summaries['open'] = op
    eng.b_open = lambda a, k: op(eng, a, k)
    eng.models[('File', '__enter__')] = lambda e, o, a, k: o
    eng.models[('File', '__exit__')] = lambda e, o, a, k: None


P, C = 'self.parser.vals', 'self.changes.vals'
DONE = ['any(item(j) == p[1] for j in range(k)) and p[0] == section',
        'any(item(j)[0] == p[0] for j in range(k))']
SAVEPOOL = [
    PoolItem(f'all(implies(({d}) and p in {C}, p in {P} and {P}[p] == '
             f'{C}[p]) for p in {C})') for d in DONE[:2]] + [
    PoolItem(f'all(p in old({P}) or p in {C} and p[0] == section '
             f'for p in {P})'),
    PoolItem(f'all(p in old({P}) or p in {C} for p in {P})'),
    PoolItem(f'all(implies(p in old({P}) and not p in {C}, '
             f'{P}[p] == old({P})[p]) for p in {P})'),
    PoolItem(f'all(implies(p in old({P}) and p[0] != section, '
             f'{P}[p] == old({P})[p]) for p in {P})'),
    PoolItem(f'all(p in {P} for p in old({P}))'),
    PoolItem('all(p[0] in self.parser.secs for p in self.parser.vals)')]
# the inner loop, over the options of one section among several
NESTED = [
    PoolItem(f'all(implies(p[0] == s and any(item(j) == p[1] for j in '
             f'range(k)), p in {P} and {P}[p] == {C}[p]) for p in {C})',
             s='@sec'),
    PoolItem(f'all(implies(p[0] != s, p in {P} and {P}[p] == entry({P})[p])'
             f' for p in entry({P})) and all(p in entry({P}) or p[0] == s '
             f'for p in {P})', s='@sec')]
ALLPOOL = [SAVEPOOL[i] for i in (1, 3, 4, 6, 7)] + NESTED
for cid, (names, sel) in SAVED.items():
    ps = dict(self=CONF)
    ps.update({n: Str() for n in names})
    contract(cid, 'C17', CLS + '.saveChanges', ps,
             run=runm('saveChanges', names), overrides=opened,
             gen=lambda rng, names=names: {
                 k: v for k, v in gen_so(rng).items()
                 if k == 'self' or k in names},
             requires=OK + [
                 'all(p in self.file.vals and self.file.vals[p] == '
                 'self.parser.vals[p] for p in self.parser.vals)',
                 'all(p in self.parser.vals for p in self.file.vals)'],
             native=native_conf(lambda s, env, names=names: s.saveChanges(
                 *[env[n] for n in names])),
             ensures=INV + [
                 ('the chosen changes are saved', 'all(implies('
                  f'{sel}, p in self.file.vals and self.file.vals[p] == '
                  'old(self.changes.vals)[p]) for p in '
                  'old(self.changes.vals))'),
                 ('the other saved values stay', 'all(p in self.file.vals '
                  f'and implies(not (({sel}) and p in old('
                  'self.changes.vals)), self.file.vals[p] == '
                  'old(self.file.vals)[p]) for p in old(self.file.vals))'),
                 ('nothing else is saved', 'all(p in old(self.file.vals) or '
                  f'(({sel}) and p in old(self.changes.vals)) for p in '
                  'self.file.vals)'),
                 ('saved changes are no longer pending', 'all(not '
                  f'({sel}) and p in old(self.changes.vals) and '
                  'self.changes.vals[p] == old(self.changes.vals)[p] for p '
                  'in self.changes.vals)'),
                 ('the others are', f'all(implies(not ({sel}), p in '
                  'self.changes.vals) for p in old(self.changes.vals))'),
                 ('the session reads the file', 'all(p in self.file.vals '
                  'and self.file.vals[p] == self.parser.vals[p] for p in '
                  'self.parser.vals) and all(p in self.parser.vals for p in '
                  'self.file.vals)')],
             cand_ms=4000, pool=ALLPOOL if not names else SAVEPOOL)


def both(eng):
    interfaces(eng)
    opened(eng)


contract('config_set_default', 'C17', CLS + '.setDefault',
         dict(self=CONF, section=Str(), option=Str(), value=Str()),
         run=runm('setDefault', ['section', 'option', 'value']),
         overrides=both, gen=gen_set, requires=OK + [
             'all(p in self.file.vals and self.file.vals[p] == '
             'self.parser.vals[p] for p in self.parser.vals)',
             'all(p in self.parser.vals for p in self.file.vals)'],
         native=native_conf(lambda s, env: s.setDefault(
             env['section'], env['option'], env['value'])),
         raises={'InvalidArgumentValue': None},
         exc_ensures=[SAME_C, SAME_P, SAME_F],
         ensures=INV + [
             ('the value is saved', f'{PAIR} in self.file.vals and '
              f'self.file.vals[{PAIR}] == value'),
             ('and read', f'not {INC} and {INP} and '
              f'self.parser.vals[{PAIR}] == value'),
             ('the rest of the file stays', 'all(p in self.file.vals and '
              f'implies(p != {PAIR}, self.file.vals[p] == old('
              'self.file.vals)[p]) for p in old(self.file.vals)) and all('
              f'p in old(self.file.vals) or p == {PAIR} for p in '
              'self.file.vals)'),
             ('no other change is saved', 'all(p in old('
              'self.changes.vals) and self.changes.vals[p] == old('
              'self.changes.vals)[p] for p in self.changes.vals) and all('
              f'p in self.changes.vals or p == {PAIR} for p in old('
              'self.changes.vals))')])
