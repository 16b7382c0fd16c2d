from . import ops, calls
from .driver import *

RULE = ('the catalogue of public calls on the same random table of up to '
        '4 x 4 in the four data types (outcome and content afterwards must '
        'agree), histories of five such calls, conversions of every type to '
        'every other and back, and comparisons between types; text is left '
        'out for Sparse, which scipy does not hold')
EXCLUDE = ()


def run(api):
    loop(api, 'call', 900, compare, share=.55)
    loop(api, 'convert', 150, convert, share=.4)
    loop(api, 'hist', 150, hist)


def skipped(c, tab, how=None):
    """calls outside the property: see DESIGN.md"""
    mixed = any(isinstance(v, (str, bool)) for t in [tab] + c.argtabs
                for r in t.rows for v in r)
    if c.name == 'inverse':
        return True  # singular matrices are found by the numeric library
    if c.name in ('replaceFeatureWithBinaryFeatures',
                  'combineByExpandingFeatures'):
        # the names spell the values, 0 or 0.0
        return how != 'direct' or any(type(v) is not int for r in tab.rows
                                      for v in r)
    if 'similarities' in c.name or c.name == 'matrixPower':
        # scipy skips the product of an implicit zero and a missing value
        return any(missing(v) for r in tab.rows for v in r)
    if c.desc.startswith('none if 0') and 'skipNone' not in c.desc:
        return True  # List and Matrix may hold None itself
    return mixed and c.name == 'merge'


def types(tab, c=None):
    tabs = [tab] + (c.argtabs if c else [])
    if c and c.name == 'splitByCollapsingFeatures':
        return ['List', 'Matrix', 'DataFrame']  # its result holds text
    if any(isinstance(v, str) for t in tabs for r in t.rows for v in r):
        return ['List', 'Matrix', 'DataFrame']
    return TYPES


def runall(c, objs, tab, what, argrt=None):
    """the call on every object; the outcomes must agree"""
    first = None
    for o in objs:
        rt = o.getTypeString()
        args = [mk(t, argrt or rt) for t in c.argtabs]
        st, v = calls.outcome(c, o, args)
        if st == 'raise' and isinstance(v, Skip):
            raise v
        if first is None:
            first = (rt, st, v)
        else:
            expect(st == first[1], lambda: f'{what}: {first[0]} '
                   f'{first[1]} {str(first[2])[:200]}, {rt} {st} '
                   f'{str(v)[:200]}')
            if st == 'ok':
                expect(calls.eqn(first[2], v, max(c.tol, 1e-8)), lambda:
                       f'{what}: {first[0]} {first[2]}, {rt} {v}')
        for a, t in zip(args, c.argtabs):
            same(a, t, what + f' [{rt}], argument')
    t0 = read(objs[0])
    for o in objs[1:]:
        same(o, t0, f'{what}, afterwards, as {objs[0].getTypeString()}',
             max(c.tol, 1e-8))
    return t0


def compare(rng):
    tab = gentab(rng)
    c = rng.choice(calls.ALL)(rng, tab)
    how = rng.choice(HOW)
    if skipped(c, tab, how):
        return
    objs = [mk(tab, rt, how) for rt in types(tab, c)]
    runall(c, objs, tab, f'{c.name} {c.desc} on {tab} ({how})')


def hist(rng):
    tab = gentab(rng, kinds=('int', 'float', 'nan', 'zero'))
    how = rng.choice(HOW)
    objs = [mk(tab, rt, how) for rt in TYPES]
    log = []
    for _ in range(5):
        c = rng.choice(calls.ALL)(rng, tab)
        if skipped(c, tab) or types(tab, c) != TYPES or 'a' in c.desc.split() or \
                'split' in c.name:
            continue
        log.append(f'{c.name} {c.desc}')
        tab = runall(c, objs, tab, '; '.join(log))
        if not tab.np or not tab.nf or tab.np * tab.nf > 60 or any(
                isinstance(v, str) for r in tab.rows for v in r):
            return


def convert(rng):
    tab = gentab(rng)
    ts = types(tab)
    a, b = rng.choice(ts), rng.choice(ts)
    o = mk(tab, a, rng.choice(HOW))
    if rng.random() < .3:
        o, _, _ = mkview(tab, a, rng)
    n = o.copy(b)
    what = f'{a} to {b} of {tab}'
    expect(n.getTypeString() == b, what)
    same(n, tab, what)
    same(n.copy(a), tab, what + ' and back')
    same(o, tab, what + ', the source')
    if not any(isinstance(v, str) or missing(v) for r in tab.rows for v in r):
        # text and missing values have no hash code
        expect(o.isApproximatelyEqual(n) and n.isApproximatelyEqual(o),
               what + ': not approximately equal')
    same(mk(tab, b), tab)
    expect(n.isIdentical(mk(tab, b)) and mk(tab, b).isIdentical(n),
           what + ': not identical to one built directly')
    i, j = rng.randrange(tab.np), rng.randrange(tab.nf)
    if not isinstance(tab.rows[i][j], str):
        m = n.copy()
        m[i, j] = 77
        expect(not n.isIdentical(m) and not m.isIdentical(n),
               what + ': identical after a change')
        same(n, tab, what + ', after a change of a copy')
        expect(not bool(n == m) and bool(n != m) and bool(
            n == n.copy()), what + ' == after a change')
    if nm(tab.fn) and all(tab.fn):
        m = n.copy()
        m.features.setNames('other', 0, useLog=False)
        expect(not n.isIdentical(m), what + ': identical with other names')
    for k in ('pythonlist', 'numpyarray', 'listofdict', 'dictoflist'):
        if k == 'pythonlist':
            r = o.copy(k)
            r = r if isinstance(r[0], list) else [r]
            expect(eqrows(r, tab.rows), lambda: f'{what} {k}: {r}')
        elif k == 'numpyarray':
            r = o.copy(k).tolist()
            expect(eqrows(r, tab.rows), lambda: f'{what} {k}: {r}')
        elif all(tab.fn):
            r = o.copy(k)
            if k == 'listofdict':
                r = [[d[f] for f in tab.fn] for d in r]
            else:
                r = [list(p) for p in zip(*[r[f] for f in tab.fn])]
            expect(eqrows(r, tab.rows), lambda: f'{what} {k}: {r}')
    if rng.random() < .4:
        t = o.copy(rng.choice(['pythonlist', 'numpyarray']),
                   rowsArePoints=False)
        t = t.tolist() if hasattr(t, 'tolist') else t
        t = t if isinstance(t[0], list) else [t]
        expect(eqrows(t, tab.T().rows), lambda: f'{what} transposed: {t}')
