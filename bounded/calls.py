"""A catalogue of public calls on data objects with random arguments, valid
and not.  There is no model of their results here: the drivers compare them
between an object and its views, between the four types, and before and
after a refusal."""
import operator

import numpy as np

import nimble
from .model import *
from .ops import anident, idlist, aslice, akey


class Call:
    def __init__(self, name, desc, fn, mut=False, argtabs=(), exact=True,
                 tol=1e-9, order=True):
        self.name, self.desc, self.fn, self.mut = name, desc, fn, mut
        self.argtabs, self.tol, self.order = list(argtabs), tol, order


def nkey(k):
    if isinstance(k, numbers.Number) and not isinstance(k, bool):
        return repr(float(k))
    return repr(k)


def norm(v, deep=0):
    """a comparable form of a result"""
    if isinstance(v, nimble.core.data.Base):
        if len(v.dimensions) > 2:
            return ('nd', tuple(v.dimensions), v.copy('pythonlist'))
        t = read(v, deep=False)
        return ('obj', (t.np, t.nf), t.rows, t.pn, t.fn)
    if isinstance(v, dict):
        return ('dict', sorted(((nkey(k), norm(x)) for k, x in v.items()),
                               key=lambda p: p[0]))
    if isinstance(v, np.ndarray):
        return ('seq', [norm(x) for x in v.tolist()]
                if v.ndim else [norm(v.item())])
    if isinstance(v, (list, tuple)):
        return ('seq', [norm(x) for x in v])
    if isinstance(v, (str, type(None))) or isinstance(v, numbers.Number) or \
            isinstance(v, (bool, np.bool_, np.generic)):
        return v
    return ('other', type(v).__name__)


def eqn(a, b, tol=1e-9):
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(
            b, (tuple, list)) and len(a) == len(b) and all(
            eqn(x, y, tol) for x, y in zip(a, b))
    return eqv(a, b, tol)


def outcome(call, o, args, rt=None):
    st, v = attempt(call.fn, o, args)
    if st == 'ok':
        return st, norm(v)
    return st, v


def axname(rng):
    return rng.choice(['points', 'features'])


STATS = ['max', 'mean', 'median', 'min', 'mode', 'uniqueCount', 'sum',
         'proportionMissing', 'proportionZero', 'standardDeviation',
         'variance', 'populationStandardDeviation', 'medianAbsoluteDeviation',
         'quartiles']


def stats(rng, tab):
    ax = axname(rng)
    s = rng.choice(STATS)
    k = rng.random()
    if k < .5:
        return Call(f'{ax}.{s}', '', lambda o, a: getattr(getattr(
            o, ax), s)(), tol=1e-7)
    if k < .7:
        return Call(f'{ax}.statistics', s, lambda o, a: getattr(
            o, ax).statistics(s), tol=1e-7)
    w = [x for x in STATS if x not in ('standardDeviation',
                                      'populationStandardDeviation')]
    s2 = rng.choice(w)
    return Call(s2, '', lambda o, a: getattr(o, s2)(), tol=1e-7)


def similarities(rng, tab):
    ax = axname(rng)
    s = rng.choice(['correlation', 'covariance', 'dot product',
                    'sample covariance', 'population covariance', 'nosuch'])
    return Call(f'{ax}.similarities', s, lambda o, a: getattr(
        o, ax).similarities(s), tol=1e-6)


def getitem(rng, tab):
    x, _, _ = akey(rng, tab.pn, tab.np)
    y, _, _ = akey(rng, tab.fn, tab.nf)
    if rng.random() < .5:
        return Call('[,]', f'{x!r}, {y!r}', lambda o, a: o[x, y])
    if rng.random() < .5:
        return Call('points[]', f'{x!r}', lambda o, a: o.points[x])
    return Call('features[]', f'{y!r}', lambda o, a: o.features[y])


def select(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    what = rng.choice(['copy', 'copy', 'extract', 'delete', 'retain'])
    k = rng.random()
    kw, args = {}, ()
    if k < .4:
        ids = idlist(rng, t.pn, t.np)
        args = (ids,)
    elif k < .5:
        args = (anident(rng, t.pn, t.np),)
    elif k < .7:
        kw = dict(start=anident(rng, t.pn, t.np), end=anident(
            rng, t.pn, t.np))
    elif k < .8:
        kw = dict(number=rng.randint(0, t.np + 1))
    else:
        j = rng.randrange(max(1, t.nf))
        c = t.rows[0][j] if t.np and t.nf else 0
        args = (lambda v: bool(v[j] == c),)
        if rng.random() < .3:
            kw = dict(number=rng.randint(1, t.np + 1))
    d = [getattr(x, '__name__', x) for x in args]
    return Call(f'{ax}.{what}', f'{d} {kw}', lambda o, a: getattr(getattr(
        o, ax), what)(*args, **kw, useLog=False), what != 'copy')


def names(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    pool = [p for p in t.pn if p] + ['n1', 'n2', 'n3', 'n4']
    k = rng.random()
    if k < .3:
        new = [rng.choice(pool + [None]) for _ in range(
            t.np + rng.choice([0, 0, 0, 1, -1]))]
        args = (new,)
    elif k < .5:
        d = {rng.choice(pool): rng.randint(0, t.np) for _ in range(t.np)}
        args = (d,)
    elif k < .6:
        args = (None,)
    elif k < .8:
        args = (rng.choice(pool), anident(rng, t.pn, t.np))
    else:
        ids = idlist(rng, t.pn, t.np)
        args = ([rng.choice(pool) for _ in ids], ids)
    return Call(f'{ax}.setNames', f'{args}', lambda o, a: getattr(
        o, ax).setNames(*[type(x)(x) if isinstance(x, (list, dict)) else x
                          for x in args], useLog=False), True)


def permute(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    p = list(range(t.np))
    rng.shuffle(p)
    if rng.random() < .25 and p:
        p[0] = rng.choice([p[-1], t.np, -1, 'nosuch'])
    return Call(f'{ax}.permute', f'{p}', lambda o, a: getattr(
        o, ax).permute(list(p), useLog=False), True)


def sort(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    r = rng.random()
    by = None if r < .2 else anident(rng, t.fn, t.nf) if r < .7 else \
        idlist(rng, t.fn, t.nf)
    rev = rng.random() < .4
    return Call(f'{ax}.sort', f'{by} {rev}', lambda o, a: getattr(
        o, ax).sort(by, rev, useLog=False), True)


def argtab(rng, n, m, kind=None, pn=None, fn=None):
    t = gentab(rng, kind or rng.choice(['int', 'float', 'nan', 'zero']), n, m,
               pn='none', fn='none')
    t.pn = pn or t.pn
    t.fn = fn or t.fn
    return t


def insert(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    k = rng.randint(1, 2)
    m = t.nf if rng.random() < .85 else t.nf + 1
    a = argtab(rng, k, m)
    if m == t.nf and rng.random() < .5:
        a.fn = list(t.fn)
        if rng.random() < .3 and any(a.fn):
            a.fn = [x and x + '!' for x in a.fn]
    if rng.random() < .5:
        a.pn = [f'q{i}' for i in range(k)]
        if rng.random() < .3 and any(t.pn):
            a.pn[-1] = rng.choice([x for x in t.pn if x])
    a = fromax(a, ax)
    if rng.random() < .4:
        return Call(f'{ax}.append', f'{a}', lambda o, x: getattr(
            o, ax).append(x[0], useLog=False), True, [a])
    at = anident(rng, t.pn, t.np)
    if at is None:
        at = 0
    return Call(f'{ax}.insert', f'{at!r} {a}', lambda o, x: getattr(
        o, ax).insert(at, x[0], useLog=False), True, [a])


def replace(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    ids = idlist(rng, t.pn, t.np)
    k = len(ids) + (rng.random() < .15)
    a = fromax(argtab(rng, k, t.nf + (rng.random() < .1)), ax)
    return Call(f'{ax}.replace', f'{ids} {a}', lambda o, x: getattr(
        o, ax).replace(x[0], ids, useLog=False), True, [a])


def rectangle(rng, tab):
    ids = [anident(rng, tab.pn, tab.np), anident(rng, tab.fn, tab.nf),
           anident(rng, tab.pn, tab.np), anident(rng, tab.fn, tab.nf)]
    if rng.random() < .4:
        c = rng.choice([0, 5, 2.5])
        return Call('replaceRectangle', f'{c} {ids}',
                    lambda o, a: o.replaceRectangle(c, *ids, useLog=False),
                    True)
    try:
        r = [resolve(tab.pn, tab.np, ids[0]), resolve(tab.fn, tab.nf,
             ids[1]), resolve(tab.pn, tab.np, ids[2]),
             resolve(tab.fn, tab.nf, ids[3])]
        k, m = max(1, r[2] - r[0] + 1), max(1, r[3] - r[1] + 1)
    except Refuse:
        k = m = 1
    a = argtab(rng, k, m + (rng.random() < .15))
    return Call('replaceRectangle', f'{a} {ids}',
                lambda o, x: o.replaceRectangle(x[0], *ids, useLog=False),
                True, [a])


def setitem(rng, tab):
    x = anident(rng, tab.pn, tab.np)
    y = anident(rng, tab.fn, tab.nf)
    v = rng.choice([0, 1, 2.5, -3, None])
    if rng.random() < .4:
        x = idlist(rng, tab.pn, tab.np)
    if rng.random() < .3:
        y = idlist(rng, tab.fn, tab.nf)
    return Call('[]=', f'{x!r}, {y!r} = {v!r}',
                lambda o, a: operator.setitem(o, (x, y), v), True)


def elementwise(rng, tab):
    k = rng.choice(['calculateOnElements', 'transformElements',
                    'matchingElements'])
    lim = {}
    if rng.random() < .3:
        lim['points'] = idlist(rng, tab.pn, tab.np)
    if rng.random() < .3:
        lim['features'] = idlist(rng, tab.fn, tab.nf)
    if k == 'matchingElements':
        f = rng.choice([0, 1, 'missing', lambda v: v == 0, '> 1', '== a',
                        'is missing', 'is not numeric', {}, nimble.match.zero])
        return Call(k, f'{f} {lim}', lambda o, a: o.matchingElements(
            f, **lim, useLog=False))
    fs = {'double': lambda v: v * 2, 'plus': lambda v: v + 1,
          'none if 0': lambda v: None if v == 0 else v,
          'fail on 2': lambda v: 1 // (0 if v == 2 else 1),
          'list': lambda v: [v], 'zero': lambda v: 0 * v,
          'map': {0: 9, 1: 8, 'a': 'b'}}
    n = rng.choice(list(fs))
    f = fs[n]
    if rng.random() < .3:
        lim['preserveZeros'] = True
    if rng.random() < .3:
        lim['skipNoneReturnValues'] = True
    return Call(k, f'{n} {lim}', lambda o, a: getattr(o, k)(
        dict(f) if isinstance(f, dict) else f, **lim, useLog=False),
        k == 'transformElements')


def vectorwise(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    k = rng.choice(['calculate', 'transform', 'matching', 'calculate'])
    fs = {'sum': lambda v: sum(x for x in v if not isinstance(x, str)
                               and x == x),
          'list': lambda v: [x for x in v], 'len': lambda v: len(v),
          'short': lambda v: list(v)[1:], 'rev': lambda v: list(v)[::-1],
          'fail': lambda v: 1 // int(v[0] != 2),
          'first': lambda v: v[0], 'index': lambda v: v[len(v) - 1],
          'match': lambda v: bool(v[0] == 0)}
    n = rng.choice(list(fs))
    f = fs[n]
    if k == 'matching':
        return Call(f'{ax}.matching', n, lambda o, a: getattr(
            o, ax).matching(f, useLog=False))
    lim = (idlist(rng, t.pn, t.np),) if rng.random() < .4 else ()
    return Call(f'{ax}.{k}', f'{n} {lim}', lambda o, a: getattr(getattr(
        o, ax), k)(f, *lim, useLog=False), k == 'transform')


def fill(rng, tab):
    ax = axname(rng)
    t = tab.axis(ax)
    w = rng.choice([7, nimble.fill.mean, nimble.fill.median, nimble.fill.mode,
                    nimble.fill.forwardFill, nimble.fill.backwardFill,
                    nimble.fill.interpolate, 9])
    m = rng.choice([nimble.match.missing, nimble.match.zero, 1, [0, 1],
                    lambda v: v == 2])
    lim = (idlist(rng, t.pn, t.np),) if rng.random() < .3 else ()
    return Call(f'{ax}.fillMatching', f'{getattr(w, "__name__", w)} '
                f'{getattr(m, "__name__", m)} {lim}', lambda o, a: getattr(
                    o, ax).fillMatching(w, m, *lim, useLog=False), True)


def arith(rng, tab):
    op = rng.choice(['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod',
                     'pow', 'eq', 'ne'])
    f = getattr(operator, op)
    k = rng.random()
    if k < .4:
        c = rng.choice([0, 1, 2, 2.5, -1, 'x', None])
        r = rng.random() < .4
        return Call(op, f'{c!r} {r}', lambda o, a: f(c, o) if r and op not in
                    ('eq', 'ne') else f(o, c))
    a = argtab(rng, tab.np, tab.nf, rng.choice(['pos', 'int', 'float',
                                               'zero']))
    if rng.random() < .15:
        a = argtab(rng, tab.np + 1, tab.nf, 'pos')
    elif rng.random() < .5:
        a.pn, a.fn = list(tab.pn), list(tab.fn)
        if rng.random() < .3 and any(a.fn):
            a.fn = [x and x + '!' for x in a.fn]
    if k < .7 or op in ('eq', 'ne'):
        return Call(op, f'{a}', lambda o, x: f(o, x[0]), argtabs=[a])
    g = getattr(operator, 'i' + op)
    if k < .85:
        return Call('i' + op, f'{a}', lambda o, x: g(o, x[0]), True, [a])
    c = rng.choice([0, 1, 2, 2.5, -1, 'x'])
    return Call('i' + op, f'{c!r}', lambda o, x: g(o, c), True)


def logical(rng, tab):
    op = rng.choice(['and_', 'or_', 'xor', 'invert', 'neg', 'abs', 'pos'])
    f = getattr(operator, op)
    if op in ('invert', 'neg', 'abs', 'pos'):
        return Call(op, '', lambda o, a: f(o))
    a = argtab(rng, tab.np, tab.nf, 'bool')
    return Call(op, f'{a}', lambda o, x: f(o, x[0]), argtabs=[a])


def matmul(rng, tab):
    k = rng.random()
    if k < .2:
        p = rng.choice([0, 1, 2, 3])
        return Call('matrixPower', f'{p}', lambda o, a: o.matrixPower(p),
                    tol=1e-6)
    if k < .35:
        return Call('inverse', '', lambda o, a: o.inverse(), tol=1e-6)
    a = argtab(rng, tab.nf + (rng.random() < .1), rng.randint(1, 3), 'int')
    if any(missing(v) for r in tab.rows for v in r):
        return reads(rng, tab)
    return Call('@', f'{a}', lambda o, x: o @ x[0], argtabs=[a])


def stretch(rng, tab):
    op = rng.choice(['add', 'sub', 'mul', 'truediv', 'mod', 'floordiv'])
    f = getattr(operator, op)
    ax = axname(rng)
    t = tab.axis(ax)
    a = fromax(argtab(rng, 1, t.nf, 'pos'), ax)
    r = rng.random() < .3
    return Call('stretch ' + op, f'{a} {r}', lambda o, x: f(x[0].stretch, o)
                if r else f(o, x[0].stretch), argtabs=[a])


def convert(rng, tab):
    k = rng.choice(['pythonlist', 'numpyarray', 'List', 'Matrix',
                    'DataFrame', 'listofdict', 'dictoflist', 'listoflist',
                    'scipycsr', 'scipycsc', 'pandasdataframe', 'nosuch'])
    def fn(o, a):
        r = o.copy(k)
        if k.startswith('scipy'):
            return r.todense().tolist()
        if k.startswith('pandas'):
            return [r.values.tolist(), [str(x) for x in r.index],
                    [str(x) for x in r.columns]]
        return r
    rap = rng.random() < .8
    one = rng.random() < .2
    if rap and not one:
        return Call('copy', k, fn)
    return Call('copy', f'{k} {rap} {one}', lambda o, a: o.copy(
        k, rowsArePoints=rap, outputAs1D=one) if not k.startswith(
            ('scipy', 'pandas')) else None)


def reads(rng, tab):
    k = rng.choice(['iter', 'iterateElements', 'iterateElements f', 'shape',
                    'containsZero', 'countElements', 'countUnique', 'eqself',
                    'points', 'features', 'view', 'pointView', 'featureView',
                    'T', 'len', 'bool', 'names', 'index', 'countUnique lim',
                    'countfn', 'unique'])
    x = anident(rng, tab.pn, tab.np)
    y = anident(rng, tab.fn, tab.nf)
    ax = axname(rng)
    t = tab.axis(ax)
    f = {
        'iter': lambda o, a: list(o),
        'iterateElements': lambda o, a: list(o.iterateElements()),
        'iterateElements f': lambda o, a: list(o.iterateElements(
            'feature', nimble.match.nonZero)),
        'shape': lambda o, a: [o.shape, o.dimensions],
        'containsZero': lambda o, a: o.containsZero(),
        'countElements': lambda o, a: o.countElements(lambda v: v == 0),
        'countUnique': lambda o, a: o.countUniqueElements(),
        'countUnique lim': lambda o, a: o.countUniqueElements(
            points=x, features=y),
        'eqself': lambda o, a: [o.isIdentical(o.copy()), bool(
            o.isApproximatelyEqual(o.copy()))],
        'points': lambda o, a: [list(p) for p in o.points],
        'features': lambda o, a: [list(p) for p in o.features],
        'view': lambda o, a: o.view(x, x, y, y),
        'pointView': lambda o, a: list(o.pointView(x)),
        'featureView': lambda o, a: list(o.featureView(y)),
        'T': lambda o, a: o.T, 'len': lambda o, a: len(o),
        'bool': lambda o, a: bool(o),
        'names': lambda o, a: [o.points.getNames(), o.features.getNames()],
        'index': lambda o, a: [o.points.getIndex(x), o.features.getIndex(y)],
        'countfn': lambda o, a: getattr(o, ax).count(
            lambda v: bool(v[0] == 0)),
        'unique': lambda o, a: getattr(o, ax).unique(),
    }[k]
    return Call(k, f'{x!r} {y!r} {ax}', f)


def text(rng, tab):
    kw = {}
    if rng.random() < .5:
        kw['lineLimit'] = rng.randint(4, 12)
    if rng.random() < .5:
        kw['lineWidthLimit'] = rng.randint(20, 60)
    if rng.random() < .2:
        kw['columnWidthLimit'] = rng.randint(4, 9)
    return Call('toString', f'{kw}', lambda o, a: o.toString(**kw))


def reshape(rng, tab):
    k = rng.choice(['transpose', 'flatten', 'unflatten', 'repeat', 'repeat'])
    if k == 'transpose':
        return Call(k, '', lambda o, a: o.transpose(useLog=False), True)
    if k == 'repeat':
        ax = axname(rng)
        n, e = rng.randint(0, 3), rng.random() < .5
        return Call(f'{ax}.repeat', f'{n} {e}', lambda o, a: getattr(
            o, ax).repeat(n, e))
    order = rng.choice(['point', 'feature', 'nosuch'] if rng.random() < .2
                       else ['point', 'feature'])
    if k == 'flatten':
        return Call(k, order, lambda o, a: o.flatten(order, useLog=False),
                    True)
    d = rng.choice([(tab.nf, tab.np), (tab.np * tab.nf, 1), (2, 2), (1, -1),
                    (1, 4)])
    return Call(k, f'{d} {order}', lambda o, a: o.unflatten(
        d, order, useLog=False), True)


def special(rng, tab):
    k = rng.choice(['binary', 'ints', 'group', 'groupcount', 'merge', 'merge',
                    'merge', 'normalize', 'split', 'collapse', 'mapReduce',
                    'trainAndTestSets', 'expand', 'bystats'])
    y = anident(rng, tab.fn, tab.nf)
    if k == 'binary':
        return Call('replaceFeatureWithBinaryFeatures', f'{y!r}',
                    lambda o, a: o.replaceFeatureWithBinaryFeatures(
                        y, useLog=False), True)
    if k == 'ints':
        return Call('transformFeatureToIntegers', f'{y!r}', lambda o, a:
                    o.transformFeatureToIntegers(y, useLog=False), True)
    if k == 'group':
        return Call('groupByFeature', f'{y!r}', lambda o, a:
                    o.groupByFeature(y, useLog=False))
    if k == 'groupcount':
        return Call('groupByFeature', f'{y!r} count', lambda o, a:
                    o.groupByFeature(y, countUniqueValueOnly=True,
                                     useLog=False))
    if k == 'bystats':
        s = rng.choice(['mean', 'sum', 'max', 'min', 'median'])
        return Call('features.' + s + ' by', f'{y!r}', lambda o, a: getattr(
            o.features, s)(groupByFeature=y), tol=1e-7)
    if k == 'merge':
        a = gentab(rng, rng.choice(['int', 'nan', 'float']), lo=1, hi=3,
                   fn=rng.choice(['all', 'some', 'none']))
        if rng.random() < .5:
            a.pn = list(dict.fromkeys([rng.choice(
                [x for x in tab.pn if x] or ['z']) for _ in a.pn]))
            a.pn += [f'm{i}' for i in range(a.np - len(a.pn))]
        p, f = (rng.choice(['strict', 'union', 'intersection', 'left'])
                for _ in range(2))
        on = None if rng.random() < .7 else rng.choice(
            [x for x in tab.fn if x] or ['nosuch'])
        force = rng.random() < .2
        return Call('merge', f'{a} {p} {f} {on} {force}', lambda o, x:
                    o.merge(x[0], p, f, on, force, useLog=False), True, [a])
    if k == 'normalize':
        n = rng.choice(['meanNormalize', 'zScoreNormalize',
                        'minMaxNormalize', 'rangeNormalize',
                        'percentileNormalize', 'meanStandardDeviationNormalize'])
        f = getattr(nimble.calculate, n, None) or (lambda v: v)
        lim = idlist(rng, tab.fn, tab.nf) if rng.random() < .4 else None
        return Call('features.normalize', f'{n} {lim}', lambda o, a:
                    o.features.normalize(f, features=lim, useLog=False),
                    True, tol=1e-7)
    if k == 'split':
        return Call('splitByParsing', f'{y!r}', lambda o, a:
                    o.features.splitByParsing(
                        y, lambda v: [v, 2], ['s1', 's2'],
                        useLog=False), True)
    if k == 'collapse':
        ids = idlist(rng, tab.fn, tab.nf)
        return Call('splitByCollapsingFeatures', f'{ids}', lambda o, a:
                    o.points.splitByCollapsingFeatures(
                        ids, 'cname', 'cval', useLog=False), True)
    if k == 'expand':
        z = idlist(rng, tab.fn, tab.nf)
        return Call('combineByExpandingFeatures', f'{y!r} {z}', lambda o, a:
                    o.points.combineByExpandingFeatures(
                        y, z, True, useLog=False), True)
    if k == 'trainAndTestSets':
        return Call(k, f'{y!r}', lambda o, a: list(o.trainAndTestSets(
            .34, y if rng.random() < 0 else None, randomOrder=False,
            useLog=False)))
    return Call('mapReduce', '', lambda o, a: o.points.mapReduce(
        lambda p: [(i, p[i]) for i in range(len(p))],
        lambda i, vs: (i, len(list(vs))), useLog=False))


READS = [stats, similarities, getitem, elementwise, vectorwise, arith,
         logical, matmul, stretch, convert, reads, reads, reshape]
ALL = READS + [select, select, names, permute, sort, insert, replace,
               rectangle, setitem, fill, reshape, special, special, special]
