import math
import operator

from .driver import *
from nimble import match

RULE = ('random tables of up to 5 x 5 with missing values, text, booleans '
        'and infinities in the four data types and on views: every match '
        'predicate and its any/all form on elements, vectors and tables, '
        'and query strings over awkward names, comparisons and predicates '
        'in count, copy, extract, matching and element queries')


def isnum(v):
    return isinstance(v, numbers.Number) and not isinstance(
        v, (bool, np.bool_))


def isbool(v):
    return isinstance(v, (bool, np.bool_))


def real(v):
    return isnum(v) or isbool(v)


PRED = dict(
    missing=missing, nonMissing=lambda v: not missing(v),
    numeric=lambda v: isnum(v) or v is None,
    nonNumeric=lambda v: not (isnum(v) or v is None),
    zero=lambda v: real(v) and v == 0,
    nonZero=lambda v: not (real(v) and v == 0),
    positive=lambda v: real(v) and v > 0,
    negative=lambda v: real(v) and v < 0,
    infinity=lambda v: isnum(v) and math.isinf(v))
OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def content(rng, n=None, m=None):
    kind = rng.choice(['int', 'float', 'nan', 'mixed', 'zero', 'inf'])
    tab = gentab(rng, 'nan' if kind == 'inf' else kind, n, m, 1, 5)
    if kind == 'inf':
        for r in tab.rows:
            for j in range(len(r)):
                if rng.random() < .2:
                    r[j] = rng.choice([math.inf, -math.inf])
    return tab


def make(rng, tab):
    ts = [t for t in TYPES if t != 'Sparse'] if any(
        isinstance(v, str) for r in tab.rows for v in r) else TYPES
    rt = rng.choice(ts)
    if rng.random() < .25:
        return rt, mkview(tab, rt, rng, rng.choice(HOW))[0]
    return rt, mk(tab, rt, rng.choice(HOW))


def anyall(rng):
    tab = content(rng)
    rt, o = make(rng, tab)
    name = rng.choice(list(PRED))
    p, q = PRED[name], rng.choice(['any', 'all'])
    f = getattr(match, q + name[0].upper() + name[1:])
    agg = any if q == 'any' else all
    what = f'{q} {name} of {tab} [{rt}]'
    want = agg(bool(p(v)) for r in tab.rows for v in r)
    got = f(o)
    expect(bool(got) == want, lambda: f'{what}: {got}')
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    per = [agg(bool(p(v)) for v in r) for r in t.rows]
    for i, v in enumerate(getattr(o, ax)):
        expect(bool(f(v)) == per[i], lambda: f'{what}: {ax} {i}: {f(v)}')
    r = getattr(o, ax).matching(f, useLog=False)
    got = [bool(v) for v in r]
    expect(got == per, lambda: f'{what}: {ax}.matching {got}')
    n = getattr(o, ax).count(f)
    expect(n == sum(per), lambda: f'{what}: {ax}.count {n}')
    m = getattr(match, name)
    got = [bool(m(math.nan if v is None else v)) for r in tab.rows for v in r]
    expect(got == [bool(p(v)) for r in tab.rows for v in r],
           lambda: f'{name} of {tab.rows}: {got}')
    g = o.matchingElements(m, useLog=False)
    expect(eqrows(read(g, False).rows, [[bool(p(v)) for v in r]
                                        for r in tab.rows]),
           lambda: f'matchingElements {name} of {tab} [{rt}]')
    n = o.countElements(m)
    expect(n == sum(bool(p(v)) for r in tab.rows for v in r),
           lambda: f'countElements {name} of {tab} [{rt}]: {n}')
    same(o, tab, what + ', afterwards')


NAMES = ['a', 'notes', 'is it', 'not b', 'x=', 'a b', 'island', 'is', 'this',
         'not', '3', 'b<c', 'is not', 'knot']
VALUES = ['0', '1', '2.5', '-1', 'a', 'b', '1e0', 'text with space', '01']


def value(rng, cells):
    if rng.random() < .6:
        v = rng.choice(cells)
        if not missing(v):
            return str(v)
    return rng.choice(VALUES)


def comparison(rng, cells):
    """-> (text, predicate); the predicate may raise"""
    op = rng.choice(list(OPS))
    txt = value(rng, cells)
    try:
        w = float(txt)
    except ValueError:
        w = txt
    return f'{op} {txt}', lambda v: OPS[op](
        math.nan if missing(v) else v, w)


def kind(rng):
    name = rng.choice(list(PRED))
    neg = rng.random() < .5
    p = PRED[name]
    return f'is not {name}' if neg else f'is {name}', lambda v: bool(
        p(v)) != neg


def query(rng):
    tab = content(rng)
    ax = rng.choice(['points', 'features'])
    other = rng.sample(NAMES, tab.nf if ax == 'points' else tab.np)
    if ax == 'points':
        tab.fn = other
    else:
        tab.pn = other
    rt, o = make(rng, tab)
    t = tab.axis(ax)
    j = rng.randrange(t.nf)
    col = [r[j] for r in t.rows]
    txt, p = kind(rng) if rng.random() < .5 else comparison(rng, col)
    name = t.fn[j]
    if ' is ' in f' {name} ' and not txt.startswith('is') or any(
            f' {x} ' in f' {name} ' for x in OPS) or \
            name == 'is not' or ' is ' in txt[3:]:
        return
    q = f'{name} {txt}'
    what = f'{q!r} over {ax} of {tab} [{rt}]'
    st, want = attempt(lambda: [bool(p(v)) for v in col])
    do = rng.choice(['count', 'copy', 'extract', 'matching', 'delete',
                     'retain'])
    x = getattr(o, ax)
    if isinstance(o, nimble.core.data.BaseView) and do in (
            'extract', 'delete', 'retain'):
        do = 'count'
    s2, r = attempt(getattr(x, do), q)
    if st == 'raise':
        expect(s2 == 'raise', lambda: f'{what}: {do} gives {r}, the '
               'comparison has no meaning')
        return
    if s2 == 'raise':
        if do != 'count' and not (any(want) and not all(want)):
            return  # an object may be left empty
        raise r
    sel = [i for i, w in enumerate(want) if w]
    rest = [i for i, w in enumerate(want) if not w]

    def part(ids):
        s = t.sel(ids) if hasattr(t, 'sel') else Tab(
            [t.rows[i] for i in ids], [t.pn[i] for i in ids], t.fn, t.nf)
        return fromax(s, ax)
    if do == 'count':
        expect(r == len(sel), lambda: f'{what}: count {r}')
    elif do == 'matching':
        expect([bool(v) for v in r] == want, lambda: f'{what}: matching '
               f'{[bool(v) for v in r]}')
    elif do in ('copy', 'extract'):
        same(r, part(sel), f'{what}: {do}')
    if do in ('extract', 'delete'):
        same(o, part(rest), f'{what}: {do}, the rest')
    elif do == 'retain':
        same(o, part(sel), f'{what}: retain')
    else:
        same(o, tab, what + ', afterwards')


def element(rng):
    tab = content(rng)
    rt, o = make(rng, tab)
    cells = [v for r in tab.rows for v in r]
    txt, p = kind(rng) if rng.random() < .5 else comparison(rng, cells)
    if ' is ' in txt[3:]:
        return
    what = f'{txt!r} over the elements of {tab} [{rt}]'
    st, want = attempt(lambda: [[bool(p(v)) for v in r] for r in tab.rows])
    do = rng.choice(['countElements', 'matchingElements'])
    s2, r = attempt(getattr(o, do), txt)
    if st == 'raise':
        expect(s2 == 'raise', lambda: f'{what}: {do} gives {r}, the '
               'comparison has no meaning')
        return
    if s2 == 'raise':
        raise r
    if do == 'countElements':
        expect(r == sum(map(sum, want)), lambda: f'{what}: {r}')
    else:
        expect(eqrows(read(r, False).rows, want), lambda:
               f'{what}: {read(r, False).rows}')
    same(o, tab, what + ', afterwards')


def run(api):
    loop(api, 'anyall', 300, anyall, share=.4)
    loop(api, 'query', 900, query, share=.5)
    loop(api, 'element', 300, element)
