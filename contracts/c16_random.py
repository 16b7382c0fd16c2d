"""Randomness: seeds are valid, alternate control gives back what it found."""
from contracts._common import *

RND = 'nimble.random.randomness:'
MOD = 'nimble.random.randomness'
GV = dict(seed=Val('none', 'int', 'bool', 'real', 'str'))


def sym_randint(eng):
    def randint(e, o, a, k):
        lo, hi = e.zi(a[0]), e.zi(a[1])
        if not e.decide(lo <= hi):
            raise e.exc('ValueError')
        r = e.freshv('randint', 'int')
        e.assume(lo <= r.e)
        e.assume(r.e <= hi)
        return r
    eng.models[('PyStream', 'randint')] = randint


def streams(eng):
    """the two generators as states: seeding with s gives the state that s
    determines, getting the state does not change it"""
    sym_randint(eng)

    def seed(e, o, a, k):
        s = a[0] if a else k.get('seed', k.get('a'))
        e.setattr(o, 'seeded', s)
        e.setattr(o, 'state', e.freshv('seeded', 'opq'))
    for c, g, s in (('PyStream', 'getstate', 'setstate'),
                    ('NpStream', 'get_state', 'set_state')):
        eng.models[(c, 'seed')] = seed
        eng.models[(c, g)] = lambda e, o, a, k: o.fields['state']
        eng.models[(c, s)] = lambda e, o, a, k: e.setattr(o, 'state', a[0])

    def log(e, a, k):
        e.assumptions.add('logging an event may fail, and uses no '
                          'randomness')
        if e.decide(e.freshv('logfails', 'bool').e):
            raise e.exc('LookupError')
    eng.summaries['nimble.core.logger.session_logger:handleLogging'] = log


class PStream:
    def __init__(self, s):
        self.state, self.seeded = s, None

    def seed(self, s=None):
        self.seeded = s
        self.state = ('seeded', s)

    def getstate(self):
        return self.state

    def setstate(self, s):
        self.state = s

    get_state, set_state = getstate, setstate

    def randint(self, lo, hi):
        import random
        r = random.Random(str(self.state)).randint(lo, hi)
        self.state = ('drawn', self.state)
        return r


WORLD = Obj('World', py=Obj('PyStream', state=Opq(), seeded=Opq()),
            np=Obj('NpStream', state=Opq(), seeded=Opq()),
            setter=Obj('Setter', _settable=Bool()),
            inpy=Opq(), innp=Opq(), inset=Bool())


def place(eng, w):
    eng.ghost[('glob', MOD, 'pythonRandom')] = w.fields['py']
    eng.ghost[('glob', MOD, 'numpyRandom')] = w.fields['np']


def run_alt(eng, env):
    """the block under the context manager is any block: it leaves the
    streams in any state, makes the seed settable or not, and may raise"""
    w = env['world']
    place(eng, w)
    eng.ghost[('glob', MOD, 'setSeed')] = w.fields['setter']

    def block(e, v):
        e.setattr(w, 'inpy', w.fields['py'].fields['seeded'])
        e.setattr(w, 'innp', w.fields['np'].fields['seeded'])
        e.setattr(w, 'inset', w.fields['setter'].fields['_settable'])
        for g in ('py', 'np'):
            e.setattr(w.fields[g], 'state', e.freshv('left', 'opq'))
        e.setattr(w.fields['setter'], '_settable', e.freshv('s', 'bool'))
        if e.decide(e.freshv('blockfails', 'bool').e):
            raise e.exc('KeyError')
    eng.models[('yield',)] = block
    mod, cls, node = eng.loader.target(RND + 'alternateControl')
    from pyvc.values import FuncVal
    return eng.callfunc(FuncVal(node, mod, None, None, node.name),
                        [env['seed']], {'useLog': env['useLog']})


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __deepcopy__(self, memo):
        import copy
        return NS(**{k: NS(**v.__dict__) if isinstance(v, PStream)
                     else copy.deepcopy(v, memo)
                     for k, v in self.__dict__.items()})


def gen_world(rng):
    w = NS(py=PStream(('p', rng.random())), np=PStream(('n', rng.random())),
           setter=NS(_settable=rng.random() < .5), inpy=None, innp=None,
           inset=None, _rng=rng)
    return dict(world=w, seed=rng.choice([0, 1, 7]), useLog=None)


def patched(env, fn):
    import nimble.random.randomness as m
    w = env['world']
    saved = {k: getattr(m, k) for k in ('pythonRandom', 'numpyRandom',
                                        'handleLogging')}
    was = m.setSeed._settable
    fails = w._rng.random() < .2

    def log(*a, **k):
        if fails:
            raise LookupError('no log')
    try:
        m.pythonRandom, m.numpyRandom, m.handleLogging = w.py, w.np, log
        m.setSeed._settable = w.setter._settable
        return fn(m, w)
    finally:
        w.setter._settable = m.setSeed._settable
        m.setSeed._settable = was
        for k, v in saved.items():
            setattr(m, k, v)


def native_alt(env):
    def go(m, w):
        with m.alternateControl(env['seed'], useLog=env['useLog']):
            w.inpy, w.innp = w.py.seeded, w.np.seeded
            w.inset = m.setSeed._settable
            w.py.state, w.np.state = 'left', 'left too'
            m.setSeed._settable = w._rng.random() < .5
            if w._rng.random() < .4:
                raise KeyError('block')
    return patched(env, go)


KEPT = [('the python stream is as it was', 'world.py.state == '
         'old(world.py.state)'),
        ('the numpy stream is as it was', 'world.np.state == '
         'old(world.np.state)'),
        ('so is whether the seed may be set', 'iff(world.setter._settable, '
         'old(world.setter._settable))')]
contract('alternate_control', 'C16', RND + 'alternateControl',
         dict(world=WORLD, seed=Opq(), useLog=Opt(Bool())), run=run_alt,
         overrides=streams, gen=gen_world, native=native_alt,
         raises={'KeyError': None, 'LookupError': None},
         exc_ensures=KEPT, ensures=KEPT + [
             ('both streams were seeded in the block', 'world.inpy == seed '
              'and world.innp == seed'),
             ('and could not be seeded in it', 'not world.inset')],
         note='ends of the block: normally and by an exception')


def run_set(eng, env):
    place(eng, env['world'])
    from pyvc.values import FuncVal
    mod, cls, node = eng.loader.target(RND + 'setSeed')
    eng.ghost[('glob', MOD, 'setSeed')] = env['world'].fields['setter']
    return eng.callfunc(FuncVal(node, mod, None, None, node.name),
                        [env['seed']], {'useLog': env['useLog']})


def native_set(env):
    def go(m, w):
        return m.setSeed(env['seed'], useLog=env['useLog'])
    return patched(env, go)


contract('set_seed', 'C16', RND + 'setSeed',
         dict(world=WORLD, seed=Opq(), useLog=Opt(Bool())), run=run_set,
         overrides=streams, gen=gen_world,
         native=native_set,
         raises={'RuntimeError': 'not world.setter._settable',
                 'LookupError': ('only', 'world.setter._settable')},
         exc_ensures=[('a refused seed changes nothing',
                       'implies(not world.setter._settable, '
                       'world.py.state == old(world.py.state) and '
                       'world.np.state == old(world.np.state))')],
         ensures=[('both streams are seeded', 'world.py.seeded == seed and '
                   'world.np.seeded == seed'),
                  ('the state of control does not change',
                   'iff(world.setter._settable, '
                   'old(world.setter._settable))')])


def run_sub(eng, env):
    place(eng, env['world'])
    eng.ghost[('glob', MOD, 'setSeed')] = env['world'].fields['setter']
    from pyvc.values import FuncVal
    mod, cls, node = eng.loader.target(RND + 'generateSubsidiarySeed')
    return eng.callfunc(FuncVal(node, mod, None, None, node.name), [], {})


contract('subsidiary_seed', 'C16', RND + 'generateSubsidiarySeed',
         dict(world=WORLD), run=run_sub, overrides=streams,
         gen=lambda rng: dict(world=gen_world(rng)['world']),
         native=lambda env: patched(
             env, lambda m, w: m.generateSubsidiarySeed()),
         ensures=[('a seed that is valid anywhere',
                   '1 <= result and result <= 4294967295')])


def run_valid(eng, env):
    place(eng, env['world'])
    from pyvc.values import FuncVal
    mod, cls, node = eng.loader.target(RND + '_getValidSeed')
    return eng.callfunc(FuncVal(node, mod, None, None, node.name),
                        [env['seed']], {})


def gen_valid(rng):
    return dict(world=gen_world(rng)['world'],
                seed=rng.choice([None, 0, 1, -1, 4294967295, 4294967296,
                                 1.5, 'a', True]))


contract('valid_seed', 'C16', RND + '_getValidSeed',
         dict(world=WORLD, seed=Val('none', 'int', 'bool', 'real', 'str')),
         run=run_valid, overrides=streams, gen=gen_valid,
         native=lambda env: patched(
             env, lambda m, w: m._getValidSeed(env['seed'])),
         raises={'InvalidArgumentType': 'seed is not None and not '
                 'isinstance(seed, int)',
                 'InvalidArgumentValue': 'isinstance(seed, int) and '
                 '(seed < 0 or seed > 4294967295)'},
         ensures=[('valid', '0 <= result and result <= 4294967295'),
                  ('the one given', 'implies(seed is not None, result == '
                   'seed)')])
