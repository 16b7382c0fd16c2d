import statistics as st_

from .driver import *
from nimble import fill, match

RULE = ('random vectors and tables of up to 5 x 5 with missing values, '
        'zeros, runs of matches at either end and text, in the four data '
        'types and on views: every fill, directly on a vector and through '
        'points/features.fillMatching with limits, for match values, lists, '
        'functions, query strings and boolean objects')

FILLS = {'constant': fill.constant, 'mean': fill.mean,
         'median': fill.median, 'mode': fill.mode,
         'forward': fill.forwardFill, 'backward': fill.backwardFill,
         'interpolate': fill.interpolate}


def num(v):
    return isinstance(v, numbers.Number) and not isinstance(v, bool)


def expected(vec, hit, name, const):
    """the vector after the fill, where a set stands for any of its values,
    or None for a refusal"""
    if name == 'constant':
        return [const if h else v for v, h in zip(vec, hit)]
    if name == 'forward':
        if hit[0]:
            return None
        out = []
        for v, h in zip(vec, hit):
            out.append(out[-1] if h else v)
        return out
    if name == 'backward':
        if hit[-1]:
            return None
        out = []
        for v, h in zip(vec[::-1], hit[::-1]):
            out.append(out[-1] if h else v)
        return out[::-1]
    free = [(i, v) for i, (v, h) in enumerate(zip(vec, hit)) if not h]
    if name == 'interpolate':
        if not any(hit):
            return list(vec)
        if not free or any(isinstance(v, str) for _, v in free):
            return None
        out = []
        for i, (v, h) in enumerate(zip(vec, hit)):
            if not h:
                out.append(v)
                continue
            before = [f for f in free if f[0] < i]
            after = [f for f in free if f[0] > i]
            if not before or not after:
                out.append((before[-1:] or after[:1])[0][1])
                continue
            (a, x), (b, y) = before[-1], after[0]
            if missing(x) or missing(y):
                out.append(None)
            else:
                out.append(x + (y - x) * (i - a) / (b - a))
        return out
    if not any(hit):
        return list(vec)
    if not free:
        return None
    vals = [v for _, v in free if not missing(v)]
    if not vals:
        return None
    if name == 'mode':
        n = max(sum(w == v for w in vals) for v in vals)
        s = {v for v in vals if sum(w == v for w in vals) == n}
        if len({isinstance(v, str) for v in s}) > 1:
            raise Skip()  # tied text and numbers have no middle
    else:
        if any(isinstance(v, str) for v in vals):
            return None
        s = {st_.mean(vals) if name == 'mean' else st_.median(vals)}
    return [s if h else v for v, h in zip(vec, hit)]


def amatch(rng, vals):
    """-> (argument, predicate, text)"""
    k = rng.randrange(7)
    v = rng.choice([x for x in vals if not missing(x)] or [0])
    if k == 0:
        return v, lambda x: x == v, f'{v!r}'
    if k == 1:
        w = [v, rng.choice([0, 1, 77])]
        return w, lambda x: any(x == y for y in w), f'{w}'
    if k == 2:
        return match.missing, missing, 'missing'
    if k == 3:
        return match.zero, lambda x: not isinstance(x, str) and x == 0, \
            'zero'
    if k == 4:
        s = set(rng.choices([0, 1, 2, -1, 5, 3], k=2))
        return (lambda x: x in s), lambda x: not missing(x) and x in s, \
            f'in {s}'
    if k == 5:
        return 'is missing', missing, "'is missing'"
    if any(isinstance(x, str) for x in vals):
        return match.nonNumeric, lambda x: isinstance(x, str), 'nonNumeric'
    t = rng.choice([0, 1, 2])
    return f'> {t}', lambda x: not missing(x) and x > t, f"'> {t}'"


def verify(got, want, what):
    expect(len(got) == len(want), lambda: f'{what}: {got}')
    used = []
    for g, w in zip(got, want):
        if isinstance(w, set):
            expect(any(eqv(g, x, 1e-7) for x in w), lambda:
                   f'{what}: {got}, expected {want}')
            used.append(g)
            expect(eqv(used[0], g, 1e-7), lambda: f'{what}: {got}')
        else:
            expect(eqv(g, w, 1e-7), lambda: f'{what}: {got}, expected '
                   f'{want}')


def content(rng, n, m):
    kind = rng.choice(['int', 'float', 'nan', 'nan', 'zero', 'mixed'])
    return gentab(rng, kind, n, m)


def typ(rng, tab):
    ts = [t for t in TYPES if t != 'Sparse'] if any(
        isinstance(v, str) for r in tab.rows for v in r) else TYPES
    return rng.choice(ts)


def fits(name, vec, hit):
    """text and numbers are not averaged, nor is a boolean matcher asked to
    tell missing values"""
    return not (name in ('mean', 'median', 'interpolate') and any(
        isinstance(v, str) for v in vec))


def vector(rng):
    n = rng.randint(1, 7)
    tab = content(rng, 1, n)
    if rng.random() < .5:
        tab = tab.T()
    rt = typ(rng, tab)
    vec = [v for r in tab.rows for v in r]
    if rng.random() < .3:
        o, src, big = mkview(tab, rt, rng, rng.choice(HOW))
    else:
        o = mk(tab, rt, rng.choice(HOW))
    name = rng.choice(list(FILLS))
    arg, pred, txt = amatch(rng, vec)
    if txt.startswith("'"):
        arg, pred, txt = match.zero, lambda x: not isinstance(
            x, str) and x == 0, 'zero'
    hit = [bool(pred(v)) for v in vec]
    if not fits(name, vec, hit):
        return
    const = rng.choice([7, 0, -2.5, 1])
    kw = {'constantValue': const} if name == 'constant' else {}
    what = f'{name} of {txt} in {tab} [{rt}]'
    st, r = attempt(FILLS[name], o, arg, **kw)
    want = expected(vec, hit, name, const)
    if want is None:
        expect(st == 'raise', lambda: f'{what} gives {read(r).rows}, must '
               'be refused')
    else:
        if st == 'raise':
            raise r
        t = read(r)
        expect((t.np, t.nf) == (tab.np, tab.nf), what + ': shape')
        verify([v for x in t.rows for v in x], want, what)
    same(o, tab, what + ': the vector afterwards')


def table(rng):
    tab = content(rng, rng.randint(1, 5), rng.randint(1, 5))
    rt = typ(rng, tab)
    o = mk(tab, rt, rng.choice(HOW))
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    name = rng.choice(list(FILLS))
    vals = [v for r in t.rows for v in r]
    if any(isinstance(v, str) for v in vals) and name in (
            'mean', 'median', 'interpolate'):
        return
    const = rng.choice([7, 0, -2.5])
    lim = None
    idx = list(range(t.np))
    if rng.random() < .4:
        idx = rng.sample(idx, rng.randint(1, t.np))
        lim = [ident(rng, t.pn, i, t.np) for i in idx]
        if len(lim) == 1 and rng.random() < .5:
            lim = lim[0]
    matcher = None
    if rng.random() < .25:
        b = [[rng.random() < .4 for _ in range(tab.nf)]
             for _ in range(tab.np)]
        arg = mk(Tab(b), rng.choice(['List', 'Matrix', 'DataFrame', rt]))
        hits = [list(r) for r in (zip(*b) if ax == 'features' else b)]
        txt = f'{b}'
        matcher = Tab(b)
    else:
        arg, pred, txt = amatch(rng, vals)
        hits = [[bool(pred(v)) for v in r] for r in t.rows]
    fn = FILLS[name]
    kw = {}
    if name == 'constant':
        fn = const
    what = f'{ax}.fillMatching {name} {const} of {txt} limited to {lim} in ' \
           f'{tab} [{rt}]'
    st, r = attempt(getattr(o, ax).fillMatching, fn, arg, lim, useLog=False)
    want = [expected(r, h, name, const) if i in idx else r
            for i, (r, h) in enumerate(zip(t.rows, hits))]
    if any(w is None for w in want):
        expect(st == 'raise', what + ' must be refused')
        same(o, tab, what + ': refused, afterwards')
        return
    if st == 'raise':
        raise r
    got = read(o)
    expect(got.pn == tab.pn and got.fn == tab.fn, what + ': names')
    g = got.axis(ax)
    expect((g.np, g.nf) == (t.np, t.nf), what + ': shape')
    for i, w in enumerate(want):
        verify(g.rows[i], w, f'{what}: {ax} {i}')
    if matcher is not None:
        expect(eqrows(read(arg, False).rows, matcher.rows), what +
               ': the matcher afterwards')


def run(api):
    loop(api, 'vector', 900, vector, share=.5)
    loop(api, 'table', 900, table)
