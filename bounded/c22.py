from . import ops, calls
from .driver import *

RULE = ('the catalogue of public calls, with invalid arguments and user '
        'functions that fail part way, on random tables of up to 4 x 4 in '
        'the four data types and on views: after a call that raises, the '
        'object, its argument objects and the argument values are as before; '
        'and refusals of the modelled operations')


def run(api):
    loop(api, 'call', 2600, refuse, share=.7)
    runops(api, ops.C02 + ops.C03 + ops.C04 + ops.C08, 150, viewp=.2,
           share=.5)
    loop(api, 'user', 500, failing)


MUT = [calls.select, calls.names, calls.permute, calls.sort, calls.insert,
       calls.insert, calls.replace, calls.rectangle, calls.setitem,
       calls.fill, calls.reshape, calls.special, calls.special,
       calls.elementwise, calls.vectorwise, calls.arith, calls.stretch]


def refuse(rng):
    tab = gentab(rng)
    c = rng.choice(MUT)(rng, tab)
    rt = rng.choice(TYPES)
    if rt == 'Sparse' and c.name == 'splitByCollapsingFeatures':
        return
    how = rng.choice(HOW)
    args = [mk(t, rng.choice([rt, rt, 'List', 'Matrix']))
            for t in c.argtabs]
    what = f'{c.name} {c.desc} [{rt}/{how}] on {tab}'
    src = big = None
    if rng.random() < .2:
        o, src, big = mkview(tab, rt, rng, how)
        what += ' (a view)'
    else:
        o = mk(tab, rt, how)
    st, v = attempt(c.fn, o, args)
    if st == 'raise':
        what += f' raised {type(v).__name__}: {str(v)[:80]}'
        same(o, tab, what)
        if src is not None:
            same(src, big, what + ', the source of the view')
        # and it is still usable
        same(o.copy(), tab, what + ', its copy')
        expect(o.isIdentical(mk(tab, rt)) or any(
            missing(v) for r in tab.rows for v in r), what + ', identity')
    for a, t in zip(args, c.argtabs):
        same(a, t, what + ', argument')


class Stop(Exception):
    pass


def failing(rng):
    """a user function which fails on its k-th call, in every operation
    that takes one"""
    tab = gentab(rng, lo=1, hi=5)
    rt = rng.choice(TYPES)
    o = mk(tab, rt, rng.choice(HOW))
    k = [rng.randint(0, 6)]

    def f(*a):
        k[0] -= 1
        if k[0] < 0:
            raise Stop()
        return out(*a)
    ax = rng.choice(['points', 'features'])
    x = getattr(o, ax)
    n = len(x)
    i = rng.randrange(len(o.features))
    ops_ = {
        'transformElements': (lambda v: 5, lambda: o.transformElements(
            f, useLog=False)),
        'transformElements preserve': (lambda v: v, lambda: (
            o.transformElements(f, preserveZeros=True, useLog=False))),
        'transform': (lambda v: [7] * len(v), lambda: x.transform(
            f, useLog=False)),
        'extract': (lambda v: True, lambda: x.extract(f, useLog=False)),
        'delete': (lambda v: True, lambda: x.delete(f, useLog=False)),
        'retain': (lambda v: False, lambda: x.retain(f, useLog=False)),
        'sort': (lambda v: v[0], lambda: x.sort(f, useLog=False)),
        'fillMatching': (lambda v, m: [7] * len(v), lambda: x.fillMatching(
            f, 0, useLog=False)),
        'fillMatching m': (lambda v: True, lambda: x.fillMatching(
            3, f, useLog=False)),
        'fillUsingAllData': (lambda v: True, lambda: o.fillUsingAllData(
            'nosuch', f, useLog=False)),
        'split': (lambda v: [v, 1], lambda: o.features.splitByParsing(
            i, f, ['s1', 's2'], useLog=False)),
        'normalize': (lambda v: v, lambda: o.features.normalize(
            f, useLog=False)),
        'calculate': (lambda v: 1, lambda: x.calculate(f, useLog=False)),
        'mapReduce': (lambda v: [(1, 2)], lambda: x.mapReduce(
            f, lambda a, b: (a, 1), useLog=False)),
        'group': (lambda v: True, lambda: x.count(f)),
    }
    name = rng.choice(list(ops_))
    out, call = ops_[name]
    st, v = attempt(call)
    if st == 'raise':
        same(o, tab, f'{name} on {ax}, function {k[0]} [{rt}] of {tab}: '
             f'{type(v).__name__}')
