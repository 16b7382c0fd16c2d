"""Statistics and normalisations against definitions in plain Python."""
import math

from .driver import *
from nimble.calculate.normalize import rangeNormalize

calc = nimble.calculate
nan = math.nan
RULE = ('random tables of up to 6 x 4 (ints, floats, zeros, missing values, '
        'text), every statistic through nimble.calculate, points/features.'
        'statistics and the named methods, on objects with different '
        'internal histories and on views, in the four types; every '
        'normalisation with and without a second object; a case is one call')


def num(v):
    return not isinstance(v, str)


def present(v):
    return [x for x in v if not missing(x)]


def numeric(f):
    def g(v):
        p = present(v)
        if any(not num(x) for x in p):
            return None
        return f([float(x) for x in p])
    return g


def pct(p, q):
    p = sorted(p)
    if not p:
        return nan
    k = (len(p) - 1) * q
    i = int(k)
    j = min(i + 1, len(p) - 1)
    return p[i] + (p[j] - p[i]) * (k - i)


def var(p, ddof):
    if len(p) - ddof <= 0:
        return nan
    m = sum(p) / len(p)
    return sum((x - m) ** 2 for x in p) / (len(p) - ddof)


def mode(v):
    p = present(v)
    if not p:
        raise Refuse('no values')
    top = max(p.count(x) for x in p)
    ms = []
    for x in p:
        if p.count(x) == top and x not in ms:
            ms.append(x)
    if len(ms) == 1:
        return ms[0]
    try:
        ms.sort()
    except TypeError:
        raise Skip()
    return ms[(len(ms) - 1) // 2]


def zeros(v):
    return sum(num(x) and not missing(x) and x == 0 for x in v) / len(v)


def mad(p):
    m = pct(p, .5)
    return pct([abs(x - m) for x in p], .5)


def total(v):
    p = present(v)
    if any(not num(x) for x in p):
        raise Skip()
    return sum(p)


DEFS = {
    'mean': ('mean', numeric(lambda p: sum(p) / len(p) if p else nan)),
    'median': ('median', numeric(lambda p: pct(p, .5))),
    'max': ('maximum', numeric(lambda p: max(p) if p else nan)),
    'min': ('minimum', numeric(lambda p: min(p) if p else nan)),
    'unique count': ('uniqueCount', lambda v: len(set(present(v)))),
    'proportion missing': ('proportionMissing', lambda v: sum(
        missing(x) for x in v) / len(v)),
    'proportion zero': ('proportionZero', zeros),
    'sample std': ('standardDeviation', numeric(
        lambda p: math.sqrt(var(p, 1)))),
    'variance': ('variance', numeric(lambda p: var(p, 1))),
    'population std': (None, numeric(lambda p: math.sqrt(var(p, 0)))),
    'mode': ('mode', mode),
    'sum': ('sum', total),
    'count': ('count', lambda v: len(present(v))),
    'median absolute deviation': ('medianAbsoluteDeviation', numeric(mad)),
    'quartiles': ('quartiles', numeric(lambda p: (
        pct(p, .25), pct(p, .5), pct(p, .75)))),
}
METHOD = {'mean': 'mean', 'median': 'median', 'max': 'max', 'min': 'min',
          'unique count': 'uniqueCount', 'proportion missing':
          'proportionMissing', 'proportion zero': 'proportionZero',
          'sample std': 'standardDeviation', 'variance': 'variance',
          'population std': 'populationStandardDeviation', 'mode': 'mode',
          'sum': 'sum', 'median absolute deviation':
          'medianAbsoluteDeviation', 'quartiles': 'quartiles'}
KINDS = ('int', 'float', 'nan', 'zero', 'mixed', 'str', 'dup')


def wanted(name, v):
    r = DEFS[name][1](v)
    if r is None:
        r = (nan, nan, nan) if name == 'quartiles' else nan
    return r


def agree(got, want, what):
    if isinstance(want, tuple):
        expect(len(got) == len(want) and all(
            eqv(a, b, 1e-7) for a, b in zip(got, want)),
            lambda: f'{what} is {tuple(got)}, by definition {want}')
    else:
        expect((isinstance(got, str) or not hasattr(got, '__len__')) and eqv(got, want, 1e-7),
               lambda: f'{what} is {got!r}, by definition {want!r}')


def source(rng, tab, rt):
    if rng.random() < .25:
        return mkview(tab, rt, rng)[0]
    return mk(tab, rt, rng.choice(HOW))


def vectors(rng):
    tab = gentab(rng, hi=6, kinds=KINDS)
    col = rng.random() < .6
    tab = tab.pick(None, [0]) if col else tab.pick([0])
    v = [r[0] for r in tab.rows] if col else tab.rows[0]
    for rt in TYPES:
        try:
            o = source(rng, tab, rt)
        except Skip:
            continue
        for name, (f, _) in DEFS.items():
            what = f'{name} of {v} [{rt}]'
            try:
                want = wanted(name, v)
            except Skip:
                continue
            except Refuse:
                expect(attempt(getattr(calc, f), o)[0] == 'raise',
                       lambda: f'{what} must be refused')
                continue
            if f:
                agree(getattr(calc, f)(o), want, what)
            if name == 'population std':
                agree(calc.standardDeviation(o, False), want, what)
                agree(calc.variance(o, False), want ** 2, what)
        same(o, tab, f'{v} [{rt}] after the statistics')


def axes(rng):
    tab = gentab(rng, hi=5, kinds=KINDS)
    rt = rng.choice(TYPES)
    o = source(rng, tab, rt)
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    name = rng.choice(list(DEFS))
    how = rng.choice(['statistics', 'method', 'case'])
    if name == 'count':
        how = 'statistics'
    what = f'{ax}.{name} ({how}) of {tab} [{rt}]'
    try:
        want = [wanted(name, v) for v in t.rows]
    except Refuse:
        want = None
    a = getattr(o, ax)
    if how == 'method':
        call = getattr(a, METHOD[name])
        st, r = attempt(call)
    else:
        st, r = attempt(a.statistics, name if how == 'statistics' else
                        name.upper().replace(' ', ''))
    if want is None:
        expect(st == 'raise', lambda: f'{what} must be refused')
    else:
        if st == 'raise':
            raise r
        got = read(r)
        rows = got.rows if ax == 'points' else got.T().rows
        expect(len(rows) == len(want), lambda: f'{what}: {got}')
        for x, w in zip(rows, want):
            agree(tuple(x) if isinstance(w, tuple) else x[0], w, what)
        ns = got.pn if ax == 'points' else got.fn
        expect(ns == t.pn, lambda: f'{what}: vectors named {ns}')
    same(o, tab, what + ', object afterwards')


def m_mean(a, b):
    p = present(a)
    m = sum(p) / len(p)
    return [[nan if missing(x) else x - m for x in v] for v in (a, b)]


def m_std(a, b):
    s = math.sqrt(var(present(a), 0))
    if s < 1e-12:
        return m_mean(a, b)
    return [[x / s for x in v] for v in m_mean(a, b)]


def rng_norm(lo, hi):
    def f(a, b):
        p = present(a)
        m, s = min(p), max(p) - min(p)
        return [[nan if missing(x) else (x - m) * (hi - lo) / (s or 1) + lo
                 for x in v] for v in (a, b)]
    return f


def m_pct(a, b):
    p = sorted(present(a))
    n = len(p)

    def own(x):
        ks = [i for i, y in enumerate(p) if y == x]
        return sum(ks) / len(ks) / (n - 1) if n > 1 else .5

    def other(x):
        if x in p:
            return own(x)
        if x < p[0]:
            return 0
        if x > p[-1]:
            return 1
        lo = max(y for y in p if y < x)
        hi = min(y for y in p if y > x)
        return own(lo) + (own(hi) - own(lo)) * (x - lo) / (hi - lo)

    return [[nan if missing(x) else own(x) for x in a],
            [nan if missing(x) else other(x) for x in b]]


NORMS = {'mean': (calc.meanNormalize, m_mean),
         'meanstd': (calc.meanStandardDeviationNormalize, m_std),
         'range01': (calc.range0to1Normalize, rng_norm(0, 1)),
         'range-12': (lambda *a: rangeNormalize(*a, start=-1, end=2),
                      rng_norm(-1, 2)),
         'percentile': (calc.percentileNormalize, m_pct)}


def eqn(got, want):
    return len(got) == len(want) and all(
        len(x) == len(y) and all(
            eqv(p, nan if q is None else q, 1e-7) for p, q in zip(x, y))
        for x, y in zip(got, want))


def normalize(rng):
    kind = rng.choice(['int', 'float', 'dup', 'nan', 'pos'])
    n, m = rng.randint(2, 6), rng.randint(1, 3)
    fn = namelist(rng, m, 'f')
    a = gentab(rng, kind, n, m)
    a.fn = fn
    b = gentab(rng, rng.choice(['int', 'float', 'nan']),
               rng.choice([n, rng.randint(1, 4)]), m)
    b.fn = fn
    if any(len(present(c)) < 1 for c in a.T().rows):
        raise Skip()
    r1, r2 = rng.choice(TYPES), rng.choice(TYPES)
    name = rng.choice(list(NORMS))
    f, ref = NORMS[name]
    fts = None
    if rng.random() < .4:
        fts = sorted(rng.sample(range(m), rng.randint(1, m)))
    ids = None if fts is None else [
        fn[j] if fn[j] and rng.random() < .5 else j for j in fts]
    if ids is not None and len(ids) == 1 and rng.random() < .5:
        ids = ids[0]
    o, p = mk(a, r1, rng.choice(HOW)), mk(b, r2, rng.choice(HOW))
    two = rng.random() < .6
    what = f'normalize {name} {"with second " if two else ""}of {a} [{r1}]' \
           f', {b} [{r2}], features={ids}'
    wa, wb = a.T().rows, b.T().rows
    for j in range(m):
        if fts is None or j in fts:
            wa[j], wb[j] = ref(a.T().rows[j], b.T().rows[j])
    pos = None
    o.features.normalize(f, applyResultTo=p if two else None, features=ids,
                         useLog=False)
    ga = read(o)
    expect(eqn(ga.T().rows, wa) and ga.pn == a.pn and ga.fn == a.fn,
           lambda: f'{what}: {ga}, by definition {Tab(wa).T().rows}')
    gb = read(p)
    if not two:
        wb = b.T().rows
    expect(eqn(gb.T().rows, wb) and gb.pn == b.pn and gb.fn == b.fn,
           lambda: f'{what}: second {gb}, by definition '
           f'{Tab(wb).T().rows}')
    # the same parameters: what the training object maps to is what the
    # second object maps to
    o, p = mk(a, r1), mk(a, r2)
    if two and name != 'percentile':
        o.features.normalize(f, applyResultTo=p, useLog=False)
        expect(eqrows(read(o).rows, read(p).rows, 1e-7),
               lambda: f'{what}: equal objects become different')


def run(api):
    loop(api, 'vector', 140, vectors, .6)
    loop(api, 'axis', 700, axes, .6)
    loop(api, 'normalize', 300, normalize)
