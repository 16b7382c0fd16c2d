import copy
import operator

import numpy as np
import pandas as pd
import scipy.sparse as sp

from . import ops
from .c09 import CHANGES
from .driver import *

RULE = ('random tables of up to 5 x 4 as lists of lists, arrays, lists of '
        'arrays, dictionaries, lists of dictionaries, data frames, sparse '
        'matrices of three formats and nimble objects, with names embedded, '
        'given as lists or dictionaries or absent, selections of points and '
        'features by index or name in any order, missing values and their '
        'replacement, both row orientations and the four data types: the '
        'object has the requested content, the source and the arguments stay '
        'as they were, and later changes on either side do not show on the '
        'other')

NUMK = ('int', 'float', 'nan', 'zero', 'pos')


def nanrow(r):
    return [float('nan') if v is None else v for v in r]


def embed(tab, pn, fn, corner):
    rows = [list(r) for r in tab.rows]
    if pn:
        rows = [[n] + r for n, r in zip(tab.pn, rows)]
    if fn:
        rows = [([corner] if pn else []) + list(tab.fn)] + rows
    return rows


def source(rng, kind, tab, pmode, fmode):
    """-> the raw source holding the table; names embedded where the mode is
    True"""
    ep, ef = pmode is True, fmode is True
    rows = embed(tab, ep, ef, rng.choice(['ID', 'pointNames', '']))
    text = ep or ef or any(isinstance(v, str) for r in tab.rows for v in r)
    if kind == 'list':
        return rows
    if kind == 'tuples':
        return [tuple(r) for r in rows] if not (ep or ef) else rows
    if kind == 'array':
        if text and all(isinstance(v, str) for r in rows for v in r) \
                and rng.random() < .6:
            return np.array(rows)
        if not text and all(isinstance(v, int) for r in rows for v in r) \
                and rng.random() < .6:
            return np.array(rows, dtype=rng.choice([int, np.int8]))
        if text:
            return np.array(rows, dtype=object)
        return np.array([nanrow(r) for r in rows],
                        dtype=rng.choice([float, object]))
    if kind == 'arrays':
        if text:
            raise Skip()
        return [np.array(nanrow(r)) for r in rows]
    if kind == 'frame':
        kw = {}
        if ep:
            kw['index'] = tab.pn
        if ef:
            kw['columns'] = tab.fn
        return pd.DataFrame([list(r) for r in tab.rows], **kw)
    if kind == 'sparse':
        if text:
            raise Skip()
        m = sp.coo_matrix(np.array([nanrow(r) for r in rows], dtype=float))
        if rng.random() < .3:
            p = list(range(m.nnz))
            rng.shuffle(p)
            m = sp.coo_matrix((m.data[p], (m.row[p], m.col[p])),
                              shape=m.shape)
        f = rng.choice(['coo', 'csr', 'csc'])
        return m if f == 'coo' else getattr(m, 'to' + f)()
    if kind == 'dict':
        if not ep or ef:
            raise Skip()
        return {n: list(r) for n, r in zip(tab.pn, tab.rows)}
    if kind == 'dicts':
        if not ef or ep:
            raise Skip()
        return [dict(zip(tab.fn, r)) for r in tab.rows]
    if kind == 'nimble':
        t = Tab(tab.rows, tab.pn if ep else None, tab.fn if ef else None,
                tab.nf)
        rt = rng.choice([t for t in TYPES if t != 'Sparse' or not any(
            isinstance(v, str) for r in tab.rows for v in r)])
        return mk(t, rt, 'direct')
    raise ValueError(kind)


def frozen(s):
    """a copy of the source to compare it with later"""
    if isinstance(s, nimble.core.data.Base):
        return read(s)
    if sp.issparse(s):
        c = s.tocoo()
        return (type(s).__name__, s.shape, str(s.dtype), s.data.copy(),
                c.row.copy(), c.col.copy(), s.toarray())
    return copy.deepcopy(s)


def unchanged(s, f):
    if isinstance(s, nimble.core.data.Base):
        t = read(s)
        return eqrows(t.rows, f.rows) and (t.pn, t.fn) == (f.pn, f.fn)
    if sp.issparse(s):
        return all(np.array_equal(a, b, equal_nan=isinstance(a, np.ndarray))
                   if isinstance(a, np.ndarray) else a == b
                   for a, b in zip(frozen(s), f))
    if isinstance(s, pd.DataFrame):
        return s.equals(f) and list(s.columns) == list(f.columns) and \
            list(s.index) == list(f.index) and list(s.dtypes) == list(
                f.dtypes)
    if isinstance(s, np.ndarray):
        return s.dtype == f.dtype and s.shape == f.shape and all(
            type(a) is type(b) and eqv(a, b)
            for a, b in zip(s.ravel().tolist(), f.ravel().tolist()))
    if isinstance(s, dict):
        return list(s) == list(f) and all(unchanged(s[k], f[k]) for k in s)
    if isinstance(s, (list, tuple)):
        return type(s) is type(f) and len(s) == len(f) and all(
            unchanged(a, b) for a, b in zip(s, f))
    return type(s) is type(f) and (s == f or missing(s) and missing(f))


def spoil(s, rng):
    """change a cell of the source in place"""
    if isinstance(s, nimble.core.data.Base):
        s[0, 0] = 99
    elif sp.issparse(s):
        s.data[:] = 99
    elif isinstance(s, pd.DataFrame):
        for c in s.columns:
            if s[c].dtype != object:
                s[c].values[:] = 99
        s.iloc[0, 0] = 99
    elif isinstance(s, np.ndarray):
        s[:] = 99
    elif isinstance(s, dict):
        for k in s:
            s[k][0] = 99
    else:
        for r in s:
            if isinstance(r, list):
                r[0] = 99
            elif isinstance(r, np.ndarray):
                r[:] = 99
            elif isinstance(r, dict):
                r[next(iter(r))] = 99


def pickkeep(rng, n, names, named):
    """-> (argument, positions) for a proper part in any order"""
    if n < 2 or rng.random() < .55:
        return 'all', list(range(n))
    pos = rng.sample(range(n), rng.randint(1, n - 1))
    return [names[i] if named and rng.random() < .4 else i for i in pos], pos


def given(rng, mode, names, pos):
    """-> the name argument; lists may name only what is kept"""
    if mode is True or mode is False or mode is None:
        return mode if mode is not None else rng.choice([False, None])
    ns = list(names)
    if mode == 'kept':
        ns = [names[i] for i in pos]
    if mode == 'dict':
        d = list(enumerate(ns))
        rng.shuffle(d)
        return {n: i for i, n in d}
    return ns


KINDS = ['list', 'list', 'tuples', 'array', 'arrays', 'frame', 'frame',
         'sparse', 'sparse', 'dict', 'dicts', 'nimble', 'nimble']


def build(rng):
    """-> source, keyword arguments, expected table"""
    kind = rng.choice(KINDS)
    ckind = rng.choice(['int', 'float', 'nan', 'zero', 'pos', 'mixed',
                        'str'])
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    tab = gentab(rng, ckind, n, m, pn='all', fn='all')
    if rng.random() < .2:
        tab.fn = [str(7 * j + 3) for j in range(m)]
    modes = [True, True, False, 'list', 'dict', 'kept', None]
    pmode, fmode = rng.choice(modes), rng.choice(modes)
    if kind == 'dict':
        fmode = rng.choice([False, 'list', 'dict', 'kept'])
        pmode = True
    if kind == 'dicts':
        pmode = rng.choice([False, 'list', 'dict', 'kept'])
        fmode = True
    kp, pp = pickkeep(rng, n, tab.pn, pmode in (True, 'list', 'dict'))
    kf, fp = pickkeep(rng, m, tab.fn, fmode in (True, 'list', 'dict'))
    if kp == 'all' and pmode == 'kept':
        pmode = 'list'
    if kf == 'all' and fmode == 'kept':
        fmode = 'list'
    turned = kind in ('list', 'array', 'frame', 'sparse') and \
        rng.random() < .2
    kw = dict(useLog=False)
    kw['pointNames'] = given(rng, pmode, tab.pn, pp)
    kw['featureNames'] = given(rng, fmode, tab.fn, fp)
    if kind == 'dict':
        kw['pointNames'] = rng.choice([True, 'automatic'])
    if kind == 'dicts':
        kw['featureNames'] = rng.choice([True, 'automatic'])
    if kp != 'all':
        kw['keepPoints'] = kp
    if kf != 'all':
        kw['keepFeatures'] = kf
    if turned:
        kw['rowsArePoints'] = False
    if rng.random() < .8:
        kw['returnType'] = rng.choice(TYPES)
    if kw.get('returnType') == 'Sparse' and (
            any(isinstance(v, str) for r in tab.rows for v in r)):
        kw['returnType'] = 'DataFrame'
    if ckind == 'str' and rng.random() < .4:
        # an empty text is missing unless said otherwise
        i, j = rng.randrange(n), rng.randrange(m)
        tab.rows[i][j] = ''
        lost = [i, j]
    else:
        lost = None
    s = source(rng, kind, tab.T() if turned else tab,
               *((fmode, pmode) if turned else (pmode, fmode)))
    rows = [list(r) for r in tab.rows]
    if lost:
        rep = rng.choice([None, 'gone', 7])
        if rep is not None:
            kw['replaceMissingWith'] = rep
        rows[lost[0]][lost[1]] = rep
    if rng.random() < .25 and ckind != 'str':
        w = rng.choice([0, 1, 3])
        tm = [w] + ([None] if rng.random() < .5 else [])
        rep = rng.choice([77, float('nan'), -5, 1.5, 300])
        kw['treatAsMissing'], kw['replaceMissingWith'] = tm, rep
        nanmiss = None in tm
        if any(missing(v) for r in rows for v in r) and not nanmiss:
            kw['treatAsMissing'] = tm = [w, None, float('nan')]
        if any(missing(v) for r in rows for v in r):
            kw['treatAsMissing'] = tm = [w, None, float('nan')]
        rows = [[rep if missing(v) or v == w else v for v in r]
                for r in rows]
    pn = tab.pn if pmode not in (False, None) else None
    fn = tab.fn if fmode not in (False, None) else None
    if kind == 'nimble':
        # names of the object are kept unless given
        if kw['pointNames'] is None or kw['pointNames'] is False:
            pn = None
        if kw['featureNames'] is None or kw['featureNames'] is False:
            fn = None
    want = Tab(rows, pn, fn, m).pick(pp, fp)
    return s, kw, want, kind


def shown(s):
    if isinstance(s, nimble.core.data.Base):
        return f'{s.getTypeString()} {read(s)}'
    if sp.issparse(s):
        return f'{type(s).__name__} {s.toarray().tolist()}'
    if isinstance(s, pd.DataFrame):
        return f'frame {s.values.tolist()} {list(s.index)} {list(s.columns)}'
    return repr(s)


def construct(rng):
    s, kw, want, kind = build(rng)
    what = f'nimble.data({kind}: {shown(s)}, {kw})'
    was, wkw = frozen(s), copy.deepcopy(kw)
    o = nimble.data(s, **kw)
    expect('returnType' not in kw or o.getTypeString() == kw['returnType']
           , lambda: f'{what}: a {o.getTypeString()}')
    same(o, want, what)
    expect(unchanged(s, was), lambda: f'{what}: the source is now {shown(s)}')
    expect(repr(kw) == repr(wkw), lambda: f'{what}: the arguments are now '
           f'{kw}')
    if not (o.shape[0] and o.shape[1]):
        return
    if rng.random() < .6:
        n = rng.choice(list(CHANGES))
        attempt(CHANGES[n], o)
        expect(unchanged(s, was), lambda: f'{what}: the source is now '
               f'{shown(s)} after {n} on the object')
        expect(repr(kw) == repr(wkw), lambda: f'{what}: the arguments are '
               f'now {kw} after {n}')
    else:
        spoil(s, rng)
        for k in ('pointNames', 'featureNames'):
            if isinstance(kw[k], list):
                kw[k][:] = ['zz'] * len(kw[k])
            elif isinstance(kw[k], dict):
                kw[k].clear()
        same(o, want, what + ', after the source was changed')


def run(api):
    loop(api, 'data', 1500, construct)
