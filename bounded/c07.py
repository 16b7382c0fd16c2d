"""Merging two objects, against a row by row definition."""
from .driver import *

RULE = ('random pairs of tables of up to 4 x 4 that share some point names or '
        'key values and some features, every combination of the strict, '
        'union, intersection and left rules, on point names and on a '
        'feature, in every pair of data types; a case is one merge')

FT = ['fa', 'fb', 'fc', 'fd', 'fe', 'ff']
NAN = None


def gen(rng):
    on = rng.random() < .5
    text = rng.random() < .3
    vals = ['a', 'b', 'c', None, 1] if text else [0, 0, 1, 2, None, 2.5]
    nl, nr = rng.randint(1, 4), rng.randint(1, 4)
    fl = rng.sample(FT, rng.randint(1, 3))
    fr = rng.sample(FT, rng.randint(1, 3))
    keys = list(range(0, 6)) if not text or rng.random() < .5 else \
        ['k0', 'k1', 'k2', 'k3', 'k4', 'k5']
    if on:
        fl, fr = [f for f in fl if f != 'fa'], [f for f in fr if f != 'fa']
        fl.insert(rng.randint(0, len(fl)), 'fa')
        fr.insert(rng.randint(0, len(fr)), 'fa')
        kl = rng.sample(keys, nl)
        kr = rng.sample(keys, nr)
        if rng.random() < .4:
            if rng.random() < .5:
                kl = [rng.choice(keys) for _ in range(nl)]
            else:
                kr = [rng.choice(keys) for _ in range(nr)]
        if rng.random() < .25:
            # missing values identify no point
            for ks in (kl, kr):
                for x in range(len(ks)):
                    if rng.random() < .4:
                        ks[x] = None
        pl = [None] * nl if rng.random() < .5 else [f'q{i}' for i in
                                                    range(nl)]
        pr = [None] * nr
    else:
        names = ['p0', 'p1', 'p2', 'p3', 'p4', 'p5']
        pl, pr = rng.sample(names, nl), rng.sample(names, nr)
        kl, kr = pl, pr
        if rng.random() < .25:
            pl = [n if rng.random() < .7 else None for n in pl]
        if rng.random() < .25:
            pr = [n if rng.random() < .7 else None for n in pr]
    # shared cells agree, most of the time
    base = {}

    def cell(k, f):
        if rng.random() < .15:
            return NAN
        if (k, f) not in base or rng.random() < .02:
            base[k, f] = rng.choice(vals)
        return base[k, f]
    rowsl = [[k if on and f == 'fa' else cell(k, f) for f in fl]
             for k in kl]
    rowsr = [[k if on and f == 'fa' else cell(k, f) for f in fr]
             for k in kr]
    return (Tab(rowsl, pl, fl, len(fl)), Tab(rowsr, pr, fr, len(fr)),
            'fa' if on else None)


def model(L, R, point, feature, on, force=False):
    """-> Tab, or Refuse; the rows of unnamed points are in model order"""
    if point == feature == 'strict':
        raise Refuse('both strict')
    strict = point == 'strict'
    setnames = None
    if 'strict' in (point, feature):
        ax = 'points' if strict else 'features'
        l, r = L.axis(ax), R.axis(ax)
        if l.np != r.np:
            raise Refuse('strict, but the counts differ')
        if strict and on is not None:
            if on not in L.fn or on not in R.fn:
                raise Refuse('no such feature')
            i, j = L.fn.index(on), R.fn.index(on)
            a = [x[i] for x in L.rows]
            b = [x[j] for x in R.rows]
            if len(set(a)) != len(a) or set(a) != set(b) or any(
                    missing(x) for x in a):
                raise Refuse('strict needs a unique match')
        elif None in l.pn or None in r.pn:
            if not force:
                raise Refuse('strict needs names')
            end = []
            for x, y in zip(l.pn, r.pn):
                if None not in (x, y) and x != y:
                    raise Skip('names differ at an index')
                end.append(x if x is not None else y)
            real = [x for x in end if x is not None]
            if len(set(real)) != len(real):
                raise Refuse('a name at two indices')
            tmp = [x if x is not None else f'_{i}' for i, x in
                   enumerate(end)]
            L = Tab(L.rows, tmp if strict else L.pn,
                    L.fn if strict else tmp, L.nf)
            R = Tab(R.rows, tmp if strict else R.pn,
                    R.fn if strict else tmp, R.nf)
            setnames = end
            if on is not None and on not in (L.fn if strict else end):
                raise Refuse('no such feature')
        elif set(l.pn) != set(r.pn):
            raise Refuse('strict needs the same names')
        if strict:
            point = 'intersection'
        else:
            feature = 'intersection'
    if nm(L.fn) is None or nm(R.fn) is None:
        raise Refuse('feature names are needed')
    if on is not None and (on not in L.fn or on not in R.fn):
        raise Refuse('no such feature')
    if on is None:
        if nm(L.pn) is None or nm(R.pn) is None:
            raise Refuse('point names are needed')
        kl, kr = L.pn, R.pn
    else:
        i, j = L.fn.index(on), R.fn.index(on)
        kl, kr = [r[i] for r in L.rows], [r[j] for r in R.rows]
        if len({isinstance(x, str) for x in kl + kr
                if not missing(x)}) > 1:
            raise Skip('keys of several kinds')
        if all(len(set(q)) != len(q) for q in (
                [x for x in k if not missing(x)] for k in (kl, kr))):
            raise Refuse('no unique key')
    shared = [f for f in L.fn if f is not None and f in R.fn]
    li = {f: L.fn.index(f) for f in L.fn}
    ri = {f: R.fn.index(f) for f in R.fn}
    if feature == 'union':
        fts = L.fn + [f for f in R.fn if f is None or f not in L.fn]
    elif feature == 'intersection':
        fts = shared
    else:
        fts = list(L.fn)
    rows, pn = [], []

    def add(a, b, name):
        row = []
        for f in fts:
            x = a[li[f]] if a is not None and f in li else None
            if missing(x) and b is not None and f in ri:
                x = b[ri[f]]
            row.append(x)
        rows.append(row)
        pn.append(name)
    used = set()
    for x, (k, a) in enumerate(zip(kl, L.rows)):
        ms = [y for y, q in enumerate(kr) if not missing(q) and q == k]
        used.update(ms)
        for y in ms:
            b = R.rows[y]
            for f in shared:
                u, v = a[li[f]], b[ri[f]]
                if not missing(u) and not missing(v) and not eqv(u, v):
                    raise Refuse(f'{f}: {u!r} is not {v!r}')
            add(a, b, L.pn[x])
        if not ms and point in ('union', 'left'):
            add(a, None, L.pn[x])
    if point == 'union':
        for y, b in enumerate(R.rows):
            if y not in used:
                add(None, b, R.pn[y])
    if on is not None:
        pn = [None] * len(rows)
    if setnames is not None:
        if strict:
            pn = setnames
        else:
            fts = setnames
    return Tab(rows, pn, fts, len(fts))


def alike(rng, L, R, points, on):
    """make the strict axis match, with some default names"""
    ax = 'points' if points else 'features'
    l, r = L.axis(ax), R.axis(ax)
    k = min(l.np, r.np)
    if not points and on is not None and (
            on not in l.pn[:k] or on not in r.pn[:k]):
        return L, R
    l, r = l.pick(range(k)), r.pick(range(k))
    if points and on is not None:
        i, j = L.fn.index(on), R.fn.index(on)
        keys = rng.sample(range(6), k)
        for a, b, key in zip(l.rows, r.rows, keys):
            a[i] = b[j] = key
        return Tab(l.rows, l.pn, L.fn), Tab(r.rows, r.pn, R.fn)
    names = list(l.pn)
    mode = rng.choice(['same', 'perm', 'none', 'some'])
    if mode == 'perm':
        order = list(range(k))
        rng.shuffle(order)
        r = r.pick(order)
        names = [names[i] for i in order]
    elif mode == 'none':
        if rng.random() < .5:
            l.pn = [None] * k
        if rng.random() < .7:
            names = [None] * k
    elif mode == 'some':
        l.pn = [n if rng.random() < .6 else None for n in l.pn]
        names = [n if rng.random() < .6 else None for n in names]
    r.pn = names
    # cells of matched points mostly agree
    for a, b in zip(l.rows, r.rows):
        if rng.random() < .8:
            for x in range(len(b)):
                if rng.random() < .5 and (points or on is None):
                    b[x] = None
    return (l, r) if points else (l.T(), r.T())


def keyof(v):
    return ('~', '') if missing(v) else (type(v).__name__ if isinstance(
        v, str) else '', str(float(v)) if not isinstance(v, str) else v)


def one(rng, L, R, on, lt, rt, point, feature, how,
        force):
    if lt == 'Sparse' and any(isinstance(v, str) for row in R.rows
                              for v in row):
        raise Skip('text in Sparse')
    l, r = mk(L, lt, how), mk(R, rt)
    what = (f'{L} {lt} [{how}] merged with {R} {rt}, point={point} '
            f'feature={feature} onFeature={on} force={force}')
    try:
        want = model(L, R, point, feature, on, force)
        refuse = None
    except Refuse as e:
        refuse = e
    st, val = attempt(l.merge, r, point=point, feature=feature,
                      onFeature=on, force=force, useLog=False)
    same(r, R, what + ': the argument object')
    if refuse is not None:
        expect(st == 'raise', lambda: f'{what}: must be refused ({refuse})')
        same(l, L, f'{what}: refused ({refuse}), but the object')
        return
    if st == 'raise':
        raise Check(f'{what}: raised {type(val).__name__}: '
                    f'{str(val)[:200]}') from val
    got = read(l)
    expect((got.np, got.nf) == (want.np, want.nf),
           lambda: f'{what}: shape {(got.np, got.nf)}, expected '
           f'{(want.np, want.nf)}: {got} expected {want}')
    expect(got.fn == want.fn, lambda: f'{what}: feature names {got.fn}, '
           f'expected {want.fn}')

    def order(t):
        rs = [(str(n), [keyof(v) for v in row], row)
              for n, row in zip(t.pn, t.rows)]
        return sorted(rs, key=lambda q: q[:2])
    g, w = order(got), order(want)
    expect([x[0] for x in g] == [x[0] for x in w],
           lambda: f'{what}: point names {got.pn}, expected {want.pn}')
    expect(eqrows([x[2] for x in g], [x[2] for x in w]),
           lambda: f'{what}: points {[x[:1] + x[2:] for x in g]}, expected '
           f'{[x[:1] + x[2:] for x in w]}')
    if want.np and want.nf:
        l.checkInvariants()


def run(api):
    n = 260 * (8 if api.thorough else 1)
    for i in range(n):
        key = f'merge {i}'
        if api.only is not None and not api.only.startswith(key + ' '):
            continue
        if api.left() < 0:
            break
        rng = api.rng('merge', i)
        L, R, on = gen(rng)
        rules = ['strict', 'union', 'intersection', 'left']
        point, feature = rng.choice(rules), rng.choice(rules)
        how = rng.choice(HOW)
        force = rng.random() < .5 and 'strict' in (point, feature)
        if 'strict' in (point, feature) and rng.random() < .7:
            L, R = alike(rng, L, R, point == 'strict', on)
        other = rng.choice(TYPES)
        for lt in TYPES:
            rt = lt if rng.random() < .7 else other
            api.case(f'{key} {lt}-{rt}', case, rng, L, R, on, lt, rt, point,
                     feature, how, force)


def case(*a):
    try:
        one(*a)
    except Skip:
        pass
