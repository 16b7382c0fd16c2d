"""Seeds, temporary seeds and random data."""
import numpy as np

from .driver import *
from nimble.random import alternateControl, pythonRandom, numpyRandom

RULE = ('random programs of nimble operations that use randomness, run twice '
        'under the same seed and under temporary seeds that are nested, left '
        'normally or by an exception; random data of random shape, sparsity, '
        'element type and type; a case is one program or one call')


def state():
    a = numpyRandom.get_state()
    return (pythonRandom.getstate(),
            (a[0], a[1].tobytes(), a[2], a[3], a[4]))


def content(o):
    t = read(o, deep=False)
    return (t.rows, t.pn, t.fn)


def consumer(rng):
    """a random operation with a comparable outcome"""
    rt = rng.choice(TYPES)
    n = rng.randint(2, 6)
    seed = rng.choice([None, None, rng.randint(0, 99)])
    ids = Tab([[i, i % 2] for i in range(n)], [f'p{i}' for i in range(n)])

    def obj():
        return mk(ids, rt)

    def dat():
        return content(nimble.random.data(
            3, n, sp, elementType=et, returnType=rt, randomSeed=seed,
            useLog=False))

    def shuffle():
        o = obj()
        o.points.permute(useLog=False)
        return content(o)

    def shufflef():
        o = obj()
        o.features.permute(useLog=False)
        return content(o)

    def pick():
        return content(obj().points.copy(number=n - 1, randomize=True,
                                         useLog=False))

    def take():
        o = obj()
        e = o.points.extract(number=1, randomize=True, useLog=False)
        return content(o), content(e)

    def split():
        return [content(x) for x in obj().trainAndTestSets(
            .4, randomOrder=True, useLog=False)]

    def folds():
        return [list(f) for f in
                nimble.core.tune.KFoldIterator([obj()], 2).foldList]

    def foldit():
        return [content(a) for r in
                nimble.core.tune.KFoldIterator([obj()], 2)
                for a in r[0]]

    def pyr():
        return pythonRandom.random()

    def npr():
        return numpyRandom.rand()

    def npn():
        return numpyRandom.normal()

    def pyn():
        return pythonRandom.gauss(0, 1)

    def sub():
        return nimble.random.generateSubsidiarySeed()

    et, sp = rng.choice(['int', 'float']), rng.choice([0, .5, .8])
    f = rng.choice([dat, dat, shuffle, shufflef, pick, take, split, folds,
                    foldit, pyr, npr, npn, npn, pyn, sub])
    return f


def eqc(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            eqc(x, y) for x, y in zip(a, b))
    return eqv(a, b, 0)


def repeat(rng):
    seed = rng.choice([0, 1, 42, 2 ** 32 - 1, rng.randint(0, 10 ** 6)])
    prog = [consumer(rng) for _ in range(rng.randint(1, 5))]
    outs = []
    for _ in range(2):
        nimble.random.setSeed(seed, useLog=False)
        outs.append(([f() for f in prog], state()))
        pythonRandom.random()
        numpyRandom.rand(3)
    what = f'seed {seed}: ' + ', '.join(f.__name__ for f in prog)
    for f, a, b in zip(prog, outs[0][0], outs[1][0]):
        expect(eqc(a, b), lambda: f'{what}: {f.__name__} gives {a}, then {b}')
    expect(outs[0][1] == outs[1][1], lambda: f'{what}: the states after '
           'both runs differ')


class Boom(Exception):
    pass


def isolated(rng):
    nimble.random.setSeed(rng.randint(0, 1000), useLog=False)
    for _ in range(rng.randint(0, 3)):
        consumer(rng)()
    seed = rng.choice([None, 3, 77])
    outer, inner, deep = [[consumer(rng) for _ in range(rng.randint(0, 3))]
                          for _ in range(3)]
    fail = rng.choice([None, 'inner', 'deep'])
    kind = rng.choice([Boom, KeyboardInterrupt, GeneratorExit])
    what = f'seed {seed}, {[f.__name__ for f in outer]} ' \
           f'{[f.__name__ for f in inner]} fails: {fail} {kind.__name__}'
    before = state()
    ran = []

    def nest(fs, kid, name):
        with alternateControl(seed, useLog=False):
            st, _ = attempt(nimble.random.setSeed, 5, useLog=False)
            expect(st == 'raise', lambda: f'{what}: setSeed is accepted '
                   'under a temporary seed')
            ran.extend(f() for f in fs)
            mid = state()
            if kid:
                try:
                    kid()
                except kind:
                    pass
                expect(state() == mid, lambda: f'{what}: the inner section '
                       'changed the stream of the outer one')
                st, _ = attempt(nimble.random.setSeed, 5, useLog=False)
                expect(st == 'raise', lambda: f'{what}: setSeed is accepted '
                       'after an inner section')
            if fail == name:
                raise kind()
            ran.extend(f() for f in fs)

    try:
        nest(inner, (lambda: nest(deep, None, 'deep'))
             if rng.random() < .6 else None, 'inner')
        expect(fail != 'inner', what)
    except kind:
        expect(fail == 'inner', what)
    expect(state() == before, lambda: f'{what}: the surrounding random '
           'state changed')
    if seed is not None:
        first = list(ran)
        del ran[:]
        with alternateControl(seed, useLog=False):
            again = [f() for f in inner]
        expect(eqc(first[:len(inner)], again),
               lambda: f'{what}: {first} then {again}')
    st, e = attempt(nimble.random.setSeed, 8, useLog=False)
    expect(st == 'ok', lambda: f'{what}: setSeed afterwards: {e}')
    for bad in (-1, 2 ** 32):
        nimble.random.setSeed(4, useLog=False)
        before = state()
        st, _ = attempt(alternateControl(bad, useLog=False).__enter__)
        expect(st == 'raise' and state() == before,
               lambda: f'alternateControl({bad}) changed the state')
        expect(attempt(nimble.random.setSeed, 4, useLog=False)[0] == 'ok',
               'setSeed after a refused temporary seed')


def randdata(rng):
    n, m = rng.randint(0, 7), rng.randint(0, 7)
    sp = rng.choice([0, .1, .25, .5, .75, .9, .99, 1, -.1])
    et = rng.choice(['int', 'float', 'str'] if rng.random() < .2
                    else ['int', 'float'])
    rt = rng.choice(TYPES)
    seed = rng.choice([None, 0, 5, 2 ** 32 - 1, -1, 2 ** 32, 'x']
                      if rng.random() < .3 else [None, 0, 5])
    pn = [f'p{i}' for i in range(n)] if rng.random() < .3 else 'automatic'
    fn = [f'f{i}' for i in range(m)] if rng.random() < .3 else 'automatic'
    what = f'random.data({n}, {m}, {sp}, {et}, {rt}, seed={seed})'
    ok = n > 0 and m > 0 and 0 <= sp < 1 and et in ('int', 'float') and (
        seed is None or (isinstance(seed, int) and 0 <= seed < 2 ** 32))
    nimble.random.setSeed(rng.randint(0, 99), useLog=False)
    before = state()
    kw = dict(pointNames=pn, featureNames=fn, elementType=et, returnType=rt,
              randomSeed=seed, useLog=False)
    st, o = attempt(nimble.random.data, n, m, sp, **kw)
    if not ok:
        expect(st == 'raise', lambda: f'{what} must be refused')
        expect(state() == before, lambda: f'{what}: state after refusal')
        return
    if st == 'raise':
        raise o
    t = read(o)
    expect(o.getTypeString() == rt and (t.np, t.nf) == (n, m),
           lambda: f'{what}: {o.getTypeString()} of {t.np} x {t.nf}')
    expect(t.pn == ([None] * n if pn == 'automatic' else pn)
           and t.fn == ([None] * m if fn == 'automatic' else fn),
           lambda: f'{what}: names {t.pn} {t.fn}')
    cells = [v for r in t.rows for v in r]
    nz = sum(v != 0 for v in cells)
    want = n * m if sp == 0 else n * m * (1 - sp)
    expect(abs(nz - want) < 1 + 1e-9, lambda: f'{what}: {nz} of {n * m} '
           'cells are not zero')
    if et == 'int':
        expect(all(v == int(v) and 0 <= v <= 100 for v in cells),
               lambda: f'{what}: {cells}')
    elif nz > 3:
        expect(any(v != int(v) for v in cells) and
               all(abs(v) < 8 for v in cells), lambda: f'{what}: {cells}')
    if seed is not None:
        expect(state() == before, lambda: f'{what} changed the state')
        pythonRandom.random()
        o2 = nimble.random.data(n, m, sp, **kw)
        same(o2, t, what + ' again', 0)
        for r2 in TYPES:
            kw['returnType'] = r2
            same(nimble.random.data(n, m, sp, **kw), t, f'{what} as {r2}',
                 1e-12)


def run(api):
    loop(api, 'data', 250, randdata)
    loop(api, 'repeat', 120, repeat)
    loop(api, 'isolated', 120, isolated)
