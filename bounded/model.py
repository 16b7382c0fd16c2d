"""Reference table used by the bounded API-level checks.

A Tab is a plain list of rows with point and feature names.  mk() builds the
nimble object with that content (in one of the four types, reached through
one of several internal histories); read() reads an object back through
several independent routes and requires them to agree.
"""
import math
import numbers
import os
import sys

import numpy as np

import nimble
from pyvc.native import Check, expect

TYPES = ['List', 'Matrix', 'DataFrame', 'Sparse']
HOW = ['direct', 'T', 'perm', 'sub', 'grown', 'warm', 'warmf', 'intdtype',
       'native']


class Tab:
    def __init__(self, rows, pn=None, fn=None, nf=None):
        self.rows = [list(r) for r in rows]
        self.np = len(rows)
        self.nf = len(rows[0]) if rows else (nf or 0)
        self.pn = list(pn) if pn is not None else [None] * self.np
        self.fn = list(fn) if fn is not None else [None] * self.nf

    def copy(self):
        return Tab(self.rows, self.pn, self.fn, self.nf)

    def T(self):
        return Tab([[self.rows[i][j] for i in range(self.np)]
                    for j in range(self.nf)], self.fn, self.pn, self.np)

    def pick(self, pts=None, fts=None):
        pts = range(self.np) if pts is None else pts
        fts = range(self.nf) if fts is None else fts
        pts, fts = list(pts), list(fts)
        return Tab([[self.rows[i][j] for j in fts] for i in pts],
                   [self.pn[i] for i in pts], [self.fn[j] for j in fts],
                   len(fts))

    def axis(self, ax):
        return self if ax == 'points' else self.T()

    def __repr__(self):
        return f'Tab({self.rows}, pn={self.pn}, fn={self.fn})'


def fromax(tab, ax):
    return tab if ax == 'points' else tab.T()


def missing(v):
    return v is None or (isinstance(v, numbers.Number) and v != v)


def eqv(a, b, tol=1e-9):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a == b)
    try:
        if a == b:
            return True
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    except TypeError:
        return a == b


def eqrows(a, b, tol=1e-9):
    return len(a) == len(b) and all(
        len(x) == len(y) and all(eqv(p, q, tol) for p, q in zip(x, y))
        for x, y in zip(a, b))


def names(ax):
    """names of an axis as a list; both lookup directions must agree"""
    ns = list(ax.getNames())
    expect(len(ns) == len(ax), lambda: f'{len(ns)} names for {len(ax)}')
    seen = {}
    for i, n in enumerate(ns):
        if n is None:
            continue
        expect(isinstance(n, str), lambda: f'name {n!r} is no string')
        expect(n not in seen, lambda: f'name {n!r} twice')
        seen[n] = i
        expect(ax.getIndex(n) == i,
               lambda: f'name {n!r} at {i} is found at {ax.getIndex(n)}')
        expect(ax.getName(i) == n, lambda: f'getName({i})')
        expect(ax.hasName(n), lambda: f'hasName({n!r})')
    inv = ax._getNamesNoGeneration()
    expect(ax.names is None or {k: v for k, v in ax.names.items()} == seen,
           lambda: f'name table {ax.names} but names {ns}')
    return ns


def read(o, deep=True):
    n, m = len(o.points), len(o.features)
    expect(tuple(o.shape) == (n, m), lambda: f'shape {o.shape}')
    rows = [[o[i, j] for j in range(m)] for i in range(n)]
    t = Tab(rows, names(o.points), names(o.features), m)
    if deep and n and m:
        pl = o.copy('pythonlist')
        if not isinstance(pl[0], list):
            pl = [pl]
        expect(eqrows(pl, rows),
               lambda: f'cells {rows} but as a python list {pl}')
        it = [list(p) for p in o.points]
        expect(eqrows(it, rows),
               lambda: f'cells {rows} but iterating over points {it}')
        ft = [list(f) for f in o.features]
        expect(eqrows(ft, t.T().rows),
               lambda: f'cells {rows} but iterating over features {ft}')
        ar = o.copy('numpyarray')
        expect(eqrows(ar.tolist(), rows),
               lambda: f'cells {rows} but as an array {ar.tolist()}')
    return t


def nm(ns):
    return None if ns is None or all(n is None for n in ns) else list(ns)


def same(o, tab, what='', tol=1e-9, deep=True, checknames=True):
    """the nimble object has exactly the content of the table"""
    t = read(o, deep)
    ty = o.getTypeString()
    expect((t.np, t.nf) == (tab.np, tab.nf),
           lambda: f'{what} [{ty}] shape {(t.np, t.nf)}, expected '
           f'{(tab.np, tab.nf)}')
    expect(eqrows(t.rows, tab.rows, tol),
           lambda: f'{what} [{ty}] values {t.rows}, expected {tab.rows}')
    if checknames:
        expect(t.pn == tab.pn, lambda: f'{what} [{ty}] point names {t.pn}, '
               f'expected {tab.pn}')
        expect(t.fn == tab.fn, lambda: f'{what} [{ty}] feature names {t.fn}, '
               f'expected {tab.fn}')
    if tab.np and tab.nf:
        o.checkInvariants()


class Skip(Exception):
    """the case says nothing (the combination is not supported)"""


def build(tab, rt):
    # scipy refuses sparse matrices of dtype object in many operations
    if rt == 'Sparse' and any(isinstance(v, str) for r in tab.rows
                              for v in r):
        raise Skip('text in Sparse')
    if tab.np == 0 or tab.nf == 0:
        src = np.empty((tab.np, tab.nf))
    else:
        src = [list(r) for r in tab.rows]
    return nimble.data(src, pointNames=nm(tab.pn) or False,
                       featureNames=nm(tab.fn) or False, returnType=rt,
                       useLog=False, convertToType=None)


def mk(tab, rt, how='direct'):
    if rt == 'Sparse' and any(isinstance(v, str) for r in tab.rows
                              for v in r):
        raise Skip('text in Sparse')
    if how == 'direct' or tab.np == 0 or tab.nf == 0:
        return build(tab, rt)
    if how == 'T':
        o = build(tab.T(), rt)
        o.transpose(useLog=False)
        return o
    if how == 'perm':
        p = list(range(tab.np))[::-1]
        f = list(range(tab.nf))[::-1]
        o = build(tab.pick(p, f), rt)
        o.points.permute(p, useLog=False)
        o.features.permute(f, useLog=False)
        return o
    if how == 'sub':
        t = tab.copy()
        big = Tab([[7] + r + [8] for r in t.rows] + [[9] * (t.nf + 2)],
                  ([*t.pn, 'p!'] if nm(t.pn) else None),
                  (['f!', *t.fn, 'g!'] if nm(t.fn) else None))
        o = build(big, rt)
        o.features.delete([0, t.nf + 1], useLog=False)
        return o.points.extract(list(range(t.np)), useLog=False)
    if how == 'grown':
        if tab.nf < 2:
            return build(tab, rt)
        k = tab.nf // 2
        o = build(tab.pick(None, range(k, tab.nf)), rt)
        o.features.insert(0, build(tab.pick(None, range(k)), rt),
                          useLog=False)
        return o
    if how in ('warm', 'warmf'):
        # caches filled by earlier reads
        o = build(tab, rt)
        [list(v) for v in (o.points if how == 'warm' else o.features)]
        o[tab.np - 1, tab.nf - 1]
        return o
    if how == 'intdtype':
        # built with other values first, then overwritten cell by cell
        t = Tab([[1] * tab.nf for _ in range(tab.np)], tab.pn, tab.fn)
        o = build(t, rt)
        for i in range(tab.np):
            for j in range(tab.nf):
                o[i, j] = tab.rows[i][j]
        return o
    if how == 'native':
        # built from an object of the library behind the type
        kw = dict(pointNames=nm(tab.pn) or False,
                  featureNames=nm(tab.fn) or False, returnType=rt,
                  useLog=False)
        rows = [[float('nan') if v is None else v for v in r]
                for r in tab.rows]
        if rt == 'DataFrame':
            import pandas as pd
            src = pd.DataFrame(rows, index=list(range(tab.np))[::-1],
                               columns=[3 * j + 1 for j in range(tab.nf)])
        elif rt == 'Sparse':
            import scipy.sparse as sp
            at = [(i, j) for i in range(tab.np) for j in range(tab.nf)
                  if i % 2 or rows[i][j] != 0][::-1]
            src = sp.coo_matrix((
                [rows[i][j] for i, j in at],
                ([i for i, _ in at], [j for _, j in at])),
                shape=(tab.np, tab.nf))
        elif any(isinstance(v, str) for r in rows for v in r):
            src = np.array(rows, dtype=object)
        else:
            src = np.array(rows)
        return nimble.data(src, **kw)
    raise ValueError(how)


def window(tab, rng):
    """a larger table of which tab is the window: (big, ps, pe, fs, fe)"""
    a, b, c, d = (rng.randint(0, 2) for _ in range(4))
    filler = lambda: rng.choice([0, 5, 6])
    rows = [[filler() for _ in range(tab.nf + c + d)] for _ in range(a)]
    rows += [[filler() for _ in range(c)] + r + [filler() for _ in range(d)]
             for r in tab.rows]
    rows += [[filler() for _ in range(tab.nf + c + d)] for _ in range(b)]
    pn = fn = None
    if nm(tab.pn):
        pn = [f'pa{i}' for i in range(a)] + tab.pn + [
            f'pb{i}' for i in range(b)]
    if nm(tab.fn):
        fn = [f'fa{i}' for i in range(c)] + tab.fn + [
            f'fb{i}' for i in range(d)]
    return Tab(rows, pn, fn), a, a + tab.np - 1, c, c + tab.nf - 1


def mkview(tab, rt, rng, how='direct'):
    """-> view with the content of tab, its source, the source's table"""
    big, ps, pe, fs, fe = window(tab, rng)
    src = mk(big, rt, how)
    return src.view(ps, pe, fs, fe), src, big


VALS = {
    'int': [0, 0, 1, 2, 3, -1, 5],
    'pos': [1, 2, 3, 4, 5, 7],
    'float': [0.0, 1.5, -2.25, 3.0, 0.5, 0.0],
    'nan': [0, 1.5, None, 3.0, -2.0, None, 0],
    'str': ['a', 'b', 'cc', 'dd', 'x y', 'z,z'],
    'mixed': ['a', 'b', 1, 0, 2.5, None, 0],
    'zero': [0, 0, 0, 0, 1],
    'bool': [True, False],
    'dup': [1, 2, 0],
}


def namelist(rng, n, prefix, mode=None):
    mode = mode or rng.choice(['all', 'all', 'none', 'some'])
    if mode == 'none':
        return [None] * n
    pool = [prefix + c for c in 'abcdefghijkl']
    rng.shuffle(pool)
    out = pool[:n]
    if mode == 'some':
        out = [x if rng.random() < .6 else None for x in out]
    return out


def gentab(rng, kind=None, n=None, m=None, lo=1, hi=4, pn=None, fn=None,
           kinds=('int', 'float', 'nan', 'mixed', 'zero', 'str')):
    kind = kind or rng.choice(list(kinds))
    n = rng.randint(lo, hi) if n is None else n
    m = rng.randint(lo, hi) if m is None else m
    vals = VALS[kind]
    rows = [[rng.choice(vals) for _ in range(m)] for _ in range(n)]
    return Tab(rows, namelist(rng, n, 'p', pn), namelist(rng, m, 'f', fn), m)


class Refuse(Exception):
    """the model says the operation is refused"""


def attempt(fn, *a, **k):
    """-> ('ok', value) or ('raise', exception)"""
    try:
        return 'ok', fn(*a, **k)
    except (Check, NameError):
        raise
    except Exception as e:
        return 'raise', e


def resolve(names, n, x):
    """the index an identifier denotes, or Refuse"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, str):
        if x in names:
            return names.index(x)
        raise Refuse(x)
    if isinstance(x, float):
        if x != int(x):
            raise Refuse(x)
        x = int(x)
    if not isinstance(x, (int, np.integer)):
        raise Refuse(x)
    if -n <= x < n:
        return x + n if x < 0 else x
    raise Refuse(x)


def ident(rng, names, i, n):
    """a random identifier denoting index i"""
    opts = [i, i - n, np.int64(i)]
    if names[i] is not None:
        opts += [names[i]] * 2
    return rng.choice(opts)
