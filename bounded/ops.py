"""Operations of nimble data objects with their meaning on a table.

An Op has a description, apply(obj, args, rt) on the real object (args are
nimble objects built from argtabs), and model(tab) -> (table afterwards,
returned) or Refuse.
"""
import functools
import math
import random

import numpy as np

import nimble
from .model import *


class Op:
    def __init__(self, name, desc, apply, model, mut, argtabs=(), argsany=False,
                 retnames=True, tol=1e-9, selfnames=True,
                 text=False):
        self.name, self.desc, self.apply, self.model = name, desc, apply, model
        self.mut, self.argtabs, self.argsany = mut, list(argtabs), argsany
        self.retnames, self.tol = retnames, tol
        self.selfnames, self.text = selfnames, text


def compare(got, want, what, op):
    if isinstance(want, Tab):
        expect(isinstance(got, nimble.core.data.Base),
               lambda: f'{what} returned {type(got).__name__}')
        same(got, want, what + ' result', op.tol, checknames=op.retnames)
    elif isinstance(want, (list, tuple)):
        got = list(got)
        expect(len(got) == len(want), lambda: f'{what} returned {got}, '
               f'expected {want}')
        for g, w in zip(got, want):
            compare(g, w, what, op)
    elif isinstance(want, dict):
        expect(len(got) == len(want) and all(
            k in got for k in want), lambda: f'{what} returned keys '
            f'{list(got)}, expected {list(want)}')
        for k in want:
            compare(got[k], want[k], what, op)
    elif want is None:
        expect(got is None or missing(got), lambda: f'{what} returned {got}')
    else:
        expect(eqv(got, want, op.tol),
               lambda: f'{what} returned {got!r}, expected {want!r}')


def step(tab, rt, how, op, view=None, argrt=None):
    """one operation on one object; view: an rng to window the table"""
    what = f'{op.name} {op.desc} on {rt}/{how}'
    if rt == 'Sparse' and op.text:
        raise Skip('text in Sparse')
    src = None
    if view is not None:
        o, src, srctab = mkview(tab, rt, view, how)
        what += ' view'
    else:
        o = mk(tab, rt, how)
    args = [mk(t, argrt or rt, 'direct') for t in op.argtabs]
    st, val = attempt(op.apply, o, args, rt)
    try:
        new, ret = op.model(tab.copy())
        refuse = None
    except Refuse as e:
        refuse = e
    if refuse is not None or (src is not None and op.mut):
        if src is not None and op.mut and refuse is None and st == 'ok':
            # allowed only when nothing was to be changed
            expect(eqrows(new.rows, tab.rows) and new.pn == tab.pn
                   and new.fn == tab.fn, f'{what}: a view was changed')
        else:
            expect(st == 'raise', lambda: f'{what}: returned {show(val)} '
                   f'although it must be refused ({refuse})')
        same(o, tab, what + ', after the refusal')
        if src is not None:
            same(src, srctab, what + ', source of the view')
    else:
        if st == 'raise':
            raise Check(f'{what}: raised {type(val).__name__}: '
                        f'{str(val)[:200]}') from val
        same(o, new, what, op.tol, checknames=op.selfnames)
        compare(val, ret, what, op)
        if src is not None:
            same(src, srctab, what + ', source of the view')
    for a, t in zip(args, op.argtabs):
        same(a, t, what + ', argument')
    return o, val


def show(v):
    try:
        if isinstance(v, nimble.core.data.Base):
            return repr(v.copy('pythonlist'))
    except Exception:
        pass
    return repr(v)[:200]


def axobj(o, ax):
    return o.points if ax == 'points' else o.features


# ---------------------------------------------------------------- C02/C03
def anident(rng, names, n):
    r = rng.random()
    if n and r < .85:
        return ident(rng, names, rng.randrange(n), n)
    if r < .9:
        return rng.choice([n, -n - 1, n + 3])
    if r < .95:
        return 'nosuch'
    return rng.choice([1.5, None])


def idlist(rng, names, n, dup=.1):
    k = rng.randint(1, max(1, n))
    idx = rng.sample(range(n), min(k, n)) if n else []
    out = [ident(rng, names, i, n) for i in idx]
    r = rng.random()
    if r < .08:
        out.append(rng.choice([n, -n - 1, 'nosuch']))
    elif r < .08 + dup and out:
        out.append(ident(rng, names, idx[0], n))
    return out


def resolved(names, n, ids):
    r = [resolve(names, n, x) for x in ids]
    if len(set(r)) != len(r):
        raise Refuse('duplicate')
    return r


def select_args(rng, t):
    """target description on a point-oriented table:
    (kwargs maker, resolver table -> indices)"""
    n, names = t.np, t.pn
    kind = rng.choice(['list', 'list', 'one', 'range', 'number', 'fn',
                       'query', 'fnnum', 'tuple'])
    if kind in ('list', 'tuple'):
        ids = idlist(rng, names, n)
        arg = tuple(ids) if kind == 'tuple' else ids
        return (arg,), {}, lambda: resolved(names, n, ids)
    if kind == 'one':
        x = anident(rng, names, n)
        if x is None or isinstance(x, float):
            x = 0
        return (x,), {}, lambda: [resolve(names, n, x)]
    if kind == 'range':
        kw = {}
        a, b = anident(rng, names, n), anident(rng, names, n)
        if rng.random() < .8:
            kw['start'] = a
        if rng.random() < .8 or not kw:
            kw['end'] = b

        def rs():
            if not n:
                raise Refuse('empty')
            s, e = kw.get('start'), kw.get('end')
            if s is None and e is None:
                raise Refuse('no target')
            s = 0 if s is None else resolve_strict(names, n, s)
            e = n - 1 if e is None else resolve_strict(names, n, e)
            if s > e:
                raise Refuse('start > end')
            return list(range(s, e + 1))
        return (), kw, rs
    if kind == 'number':
        k = rng.randint(0, n + 1)

        def rs():
            if k < 1 or k > n:
                raise Refuse('number')
            return list(range(k))
        return (), dict(number=k), rs
    if not n or not t.nf:
        return ([],), {}, lambda: []
    j = rng.randrange(t.nf)
    col = [r[j] for r in t.rows]
    if kind == 'query':
        c = rng.choice([v for v in col if v is not None] or [0])
        op = rng.choice(['==', '!='] if isinstance(c, str)
                        else ['==', '!=', '<', '>', '<=', '>='])
        ref = t.fn[j]
        if ref is None or isinstance(c, str) and (not c or ' ' in c):
            kind = 'fn'
        else:
            import operator
            f = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
                 '>': operator.gt, '<=': operator.le, '>=': operator.ge}[op]

            def rs():
                if op in ('<', '>', '<=', '>=') and any(
                        isinstance(v, str) for v in col):
                    raise Skip('comparison')
                return [i for i, v in enumerate(col)
                        if (f(v, c) if not missing(v) else op == '!=')]
            return (f'{ref} {op} {c}',), {}, rs
    c = rng.choice(col)
    key = lambda v: 'nan' if missing(v) else v

    def pred(p):
        return key(p[j]) == key(c)

    sel = [i for i, v in enumerate(col) if key(v) == key(c)]
    if kind == 'fnnum':
        k = rng.randint(1, n)

        def rs():
            if k > len(sel):
                raise Refuse('number')
            return sel[:k]
        return (pred,), dict(number=k), rs
    return (pred,), {}, lambda: sel


def resolve_strict(names, n, x):
    """identifiers in start/end: no floats"""
    if isinstance(x, float) or x is None:
        raise Refuse(x)
    return resolve(names, n, x)


def structural(rng, tab, what=None, ax=None):
    ax = ax or rng.choice(['points', 'features'])
    what = what or rng.choice(['copy', 'extract', 'delete', 'retain'])
    t = tab.axis(ax)
    args, kw, rs = select_args(rng, t)

    def model(tab):
        t = tab.axis(ax)
        idx = rs()
        rest = [i for i in range(t.np) if i not in idx]
        got = fromax(t.pick(idx), ax)
        left = fromax(t.pick(rest), ax)
        if what == 'copy':
            return tab, got
        if what == 'extract':
            return left, got
        if what == 'delete':
            return left, None
        return got, None

    def apply(o, a, rt):
        return getattr(axobj(o, ax), what)(*args, **kw, useLog=False)
    d = [getattr(x, '__name__', None) or x for x in args]
    return Op(f'{ax}.{what}', f'{d} {kw}', apply, model, what != 'copy')


def count(rng, tab, ax=None):
    ax = ax or rng.choice(['points', 'features'])
    t = tab.axis(ax)
    for _ in range(50):
        args, kw, rs = select_args(rng, t)
        if args and not kw and (callable(args[0]) or (
                isinstance(args[0], str) and ' ' in args[0])):
            break
    else:
        return structural(rng, tab)
    d = getattr(args[0], '__name__', args[0])
    return Op(f'{ax}.count', f'{d}', lambda o, a, rt: axobj(o, ax).count(
        args[0]), lambda tab: (tab, len(rs())), False)


def aslice(rng, names, n):
    """a slice of identifiers, inclusive at both ends -> (slice, resolver)"""
    def end():
        if not n or rng.random() < .25:
            return None
        if rng.random() < .06:
            return rng.choice([n, -n - 1, 'nosuch'])
        x = ident(rng, names, rng.randrange(n), n)
        return float(x) if isinstance(x, int) and rng.random() < .1 else x
    a, b = end(), end()
    st = rng.choice([None, None, None, 1, 2, -1, -2])

    def rs():
        step = 1 if st is None else st
        if a is None and b is None and st is None:
            return list(range(n))
        if not n:
            raise Refuse('empty')
        f, l = (0, n - 1) if step > 0 else (n - 1, 0)
        s = f if a is None else resolve(names, n, a)
        e = l if b is None else resolve(names, n, b)
        return list(range(s, e + (1 if step > 0 else -1), step))
    return slice(a, b, st), rs


def akey(rng, names, n):
    """-> (key, resolver, single)"""
    k = rng.choice(['one', 'one', 'slice', 'slice', 'list', 'mask', 'all'])
    if k == 'one':
        x = anident(rng, names, n)
        if x is None:
            x = 0
        if isinstance(x, int) and not isinstance(x, bool) and \
                rng.random() < .2:
            x = float(x)
        return x, lambda: [resolve(names, n, x)], True
    if k == 'slice':
        s, rs = aslice(rng, names, n)
        return s, rs, False
    if k == 'list':
        ids = idlist(rng, names, n)

        def rl():
            return resolved(names, n, ids)
        return ids, rl, False
    if k == 'mask':
        m = n if rng.random() < .85 else max(1, n + rng.choice([-1, 1]))
        mask = [rng.random() < .5 for _ in range(m)]

        def rm():
            if m != n:
                raise Refuse('mask length')
            return [i for i, b in enumerate(mask) if b]
        return mask, rm, False
    return slice(None), lambda: list(range(n)), False


def getitem(rng, tab):
    """obj[points, features], obj.points[..], obj.features[..]"""
    r = rng.random()
    if r < .5:
        x, rx, sx = akey(rng, tab.pn, tab.np)
        y, ry, sy = akey(rng, tab.fn, tab.nf)

        def model(tab):
            p, f = rx(), ry()
            if sx and sy:
                return tab, tab.rows[p[0]][f[0]]
            return tab, tab.pick(p, f)
        return Op('[,]', f'[{x!r}, {y!r}]', lambda o, a, rt: o[x, y], model,
                  False)
    ax = 'points' if r < .75 else 'features'
    t = tab.axis(ax)
    x, rx, sx = akey(rng, t.pn, t.np)
    return Op(f'{ax}[]', f'{x!r}', lambda o, a, rt: axobj(o, ax)[x],
              lambda tab: (tab, fromax(tab.axis(ax).pick(rx()), ax)), False)


def lookups(rng, tab):
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    k = rng.choice(['getIndex', 'getName', 'hasName', 'getIndices'])
    if k == 'getIndex':
        x = anident(rng, t.pn, t.np)
        m = lambda tab: (tab, resolve_strict(t.pn, t.np, x))
    elif k == 'getName':
        x = rng.randint(-t.np - 1, t.np)

        def m(tab):
            if not -t.np <= x < t.np:
                raise Refuse(x)
            return tab, t.pn[x]
    elif k == 'hasName':
        x = rng.choice([p for p in t.pn if p] + ['nosuch'])
        m = lambda tab: (tab, x in t.pn)
    else:
        x = [rng.choice([p for p in t.pn if p] + ['nosuch'] * (
            rng.random() < .1) or ['nosuch'])
             for _ in range(rng.randint(1, 3))]

        def m(tab):
            if any(y not in t.pn for y in x):
                raise Refuse(x)
            return tab, [t.pn.index(y) for y in x]
    return Op(f'{ax}.{k}', f'{x!r}', lambda o, a, rt: getattr(
        axobj(o, ax), k)(x), m, False)


# -------------------------------------------------------------------- C01
def setnames(rng, tab):
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    n, pn = t.np, t.pn
    pool = [p for p in pn if p] + ['n1', 'n2', 'n3', 'n4', 'n5', 'n6']
    k = rng.choice(['list', 'list', 'dict', 'none', 'one', 'part', 'part'])
    args = ()
    if k == 'none':
        args = (None,)
        m = lambda: [None] * n
    elif k == 'list':
        q = n if rng.random() < .85 else max(0, n + rng.choice([-1, 1]))
        new = [rng.choice(pool + [None]) for _ in range(q)] \
            if rng.random() < .4 else rng.sample(pool, min(q, len(pool)))
        args = (new,)

        def m():
            s = [x for x in new if x is not None]
            if len(new) != n or len(set(s)) != len(s):
                raise Refuse('names')
            return list(new)
    elif k == 'dict':
        idx = list(range(n))
        rng.shuffle(idx)
        if rng.random() < .2 and idx:
            idx[0] = rng.choice([n, -1, idx[-1]])
        nms = rng.sample(pool, min(n, len(pool)))
        d = dict(zip(nms, idx))
        if rng.random() < .1 and d:
            d.pop(nms[0])
        args = (d,)

        def m():
            if sorted(d.values()) != list(range(n)):
                raise Refuse('dict')
            out = [None] * n
            for x, i in d.items():
                out[i] = x
            return out
    else:
        if k == 'one':
            ids = [anident(rng, pn, n)]
            if not isinstance(ids[0], (int, str, np.integer)):
                ids = [0]
            new = [rng.choice(pool + [None])]
            if not isinstance(ids[0], str):
                ids = [int(ids[0])]
            args = (new[0], ids[0])
            if new[0] is None:
                return setnames(rng, tab)
        else:
            ids = idlist(rng, pn, n)
            new = [rng.choice(pool + [None]) for _ in ids] \
                if rng.random() < .3 else rng.sample(
                    pool, min(len(ids), len(pool)))
            args = (new, ids)

        def m():
            if len(new) != len(ids) or not n:
                raise Refuse('length')
            r = resolved(pn, n, ids)
            if any(x in pn and pn.index(x) != i and pn.index(x) in r
                   for i, x in zip(r, new) if x is not None):
                # swapping names within one call may be refused
                raise Skip('swap')
            out = list(pn)
            for i, x in zip(r, new):
                out[i] = x
            s = [x for x in out if x is not None]
            if len(set(s)) != len(s):
                raise Refuse('duplicate')
            return out

    def model(tab):
        t = tab.axis(ax)
        t.pn = m()
        return fromax(t, ax), None
    return Op(f'{ax}.setNames', f'{args}', lambda o, a, rt: axobj(
        o, ax).setNames(*[list(x) if isinstance(x, list) else dict(x)
                          if isinstance(x, dict) else x for x in args],
                        useLog=False), model, True)


# -------------------------------------------------------------------- C04
def permute(rng, tab, ax=None):
    ax = ax or rng.choice(['points', 'features'])
    t = tab.axis(ax)
    p = list(range(t.np))
    rng.shuffle(p)
    r = rng.random()
    if r < .07 and p:
        p[0] = p[-1]
    elif r < .14 and p:
        p.pop()
    ids = [ident(rng, t.pn, i, t.np) for i in p]

    def model(tab):
        if sorted(p) != list(range(t.np)):
            raise Refuse('order')
        return fromax(tab.axis(ax).pick(p), ax), None
    return Op(f'{ax}.permute', f'{ids}', lambda o, a, rt: axobj(
        o, ax).permute(ids, useLog=False), model, True)


def sortop(rng, tab):
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    rev = rng.random() < .4
    k = rng.choice(['names', 'id', 'ids', 'fn', 'cmp', 'getter'])
    import operator
    if k == 'names':
        by, key = None, lambda i: t.pn[i]
        ok = all(x is not None for x in t.pn)
    elif k in ('id', 'ids', 'getter'):
        q = 1 if k == 'id' else rng.randint(1, t.nf)
        js = rng.sample(range(t.nf), q)
        vals = [[r[j] for j in js] for r in t.rows]
        cols = list(zip(*vals))
        ok = all(all(isinstance(v, str) for v in c if not missing(v))
                 or not any(isinstance(v, str) for v in c) for c in cols)
        key = lambda i: tuple((bool(missing(v)) != rev,
                               0 if missing(v) else v) for v in vals[i])
        if k == 'id':
            by = ident(rng, t.fn, js[0], t.nf)
        elif k == 'ids':
            by = [ident(rng, t.fn, j, t.nf) for j in js]
        else:
            by = operator.itemgetter(*[ident(rng, t.fn, j, t.nf)
                                       for j in js])
        if not ok:
            return permute(rng, tab, ax)
    else:
        j = rng.randrange(t.nf)
        col = [(missing(r[j]), isinstance(r[j], str), 0 if missing(r[j])
                else r[j]) for r in t.rows]
        ok = True
        key = lambda i: col[i]
        f = lambda v: (bool(missing(v[j])), isinstance(v[j], str),
                       0 if missing(v[j]) else v[j])
        if k == 'fn':
            by = lambda v: f(v)
        else:
            by = lambda v, w: int(f(v) > f(w)) - int(f(v) < f(w))

    def model(tab):
        if not ok and t.np:
            raise Refuse('names')
        p = sorted(range(t.np), key=key, reverse=rev)
        return fromax(tab.axis(ax).pick(p), ax), None
    return Op(f'{ax}.sort', f'by {k} {by if not callable(by) else ""} '
              f'reverse={rev}',
              lambda o, a, rt: axobj(o, ax).sort(by=by, reverse=rev,
                                                 useLog=False), model, True)


def insertion(rng, tab):
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    k = rng.randint(1, 3)
    m = t.nf if rng.random() < .93 else t.nf + 1
    kind = rng.choice(['int', 'float', 'mixed', 'nan'])
    ins = gentab(rng, kind, k, m, pn='none', fn='none')
    u = next(c for c in 'qrstuvw' if not any(
        x and x.startswith(c) for x in t.pn))
    ins.pn = [f'{u}{i}' for i in range(k)]
    mode = rng.choice(['all', 'none', 'some', 'clash'])
    if mode == 'none':
        ins.pn = [None] * k
    elif mode == 'some':
        ins.pn = [x if rng.random() < .5 else None for x in ins.pn]
    elif mode == 'clash' and any(t.pn):
        ins.pn[0] = rng.choice([x for x in t.pn if x])
    om = rng.choice(['same', 'none', 'perm', 'bad'])
    if m == t.nf and om != 'none':
        ins.fn = list(t.fn)
        if om == 'perm' and all(x is not None for x in t.fn):
            rng.shuffle(ins.fn)
        elif om == 'bad' and any(t.fn):
            i = rng.choice([i for i, x in enumerate(t.fn) if x])
            ins.fn[i] = 'other'
    app = rng.random() < .3
    pos = t.np if app else rng.randint(0, t.np)
    ref = pos
    if pos < t.np:
        ref = ident(rng, t.pn, pos, t.np)
        if rng.random() < .05:
            ref, pos = rng.choice([(t.np + 1, None), ('nosuch', None)])

    def model(tab):
        t = tab.axis(ax)
        if pos is None or m != t.nf:
            raise Refuse('position or size')
        a = [x for x in t.pn if x]
        b = [x for x in ins.pn if x]
        if set(a) & set(b):
            raise Refuse('clash')
        src = ins.copy()
        fn = list(t.fn)
        if any(t.fn) and any(ins.fn):
            if t.fn != ins.fn:
                if all(t.fn) and sorted(t.fn) == sorted(
                        x or '' for x in ins.fn):
                    src = ins.pick(None, [ins.fn.index(x) for x in t.fn])
                else:
                    # names that contradict each other at some position
                    if any(x and y and x != y
                           for x, y in zip(t.fn, ins.fn)) or True:
                        raise Skip('partly named')
        elif any(ins.fn):
            fn = list(ins.fn)
        rows = t.rows[:pos] + src.rows + t.rows[pos:]
        pn = t.pn[:pos] + src.pn + t.pn[pos:]
        return fromax(Tab(rows, pn, fn, t.nf), ax), None

    def apply(o, a, rt):
        x = axobj(o, ax)
        if app:
            return x.append(a[0], useLog=False)
        return x.insert(ref, a[0], useLog=False)
    return Op(f'{ax}.' + ('append' if app else 'insert'),
              f'at {ref!r}: {fromax(ins, ax)}', apply, model, True,
              [fromax(ins, ax)])


def repeat(rng, tab):
    ax = rng.choice(['points', 'features'])
    k = rng.randint(1, 3)
    each = rng.random() < .5
    t = tab.axis(ax)
    if any(t.pn) and not all(t.pn):
        return permute(rng, tab, ax)

    def model(tab):
        t = tab.axis(ax)
        if k == 1:
            return tab, tab
        if each:
            ids = [(i, c) for i in range(t.np) for c in range(k)]
        else:
            ids = [(i, c) for c in range(k) for i in range(t.np)]
        r = t.pick([i for i, _ in ids])
        r.pn = [None if t.pn[i] is None else f'{t.pn[i]}_{c + 1}'
                for i, c in ids]
        return tab, fromax(r, ax)
    return Op(f'{ax}.repeat', f'{k}, {each}', lambda o, a, rt: axobj(
        o, ax).repeat(k, each), model, False)


def replaceax(rng, tab):
    ax = rng.choice(['points', 'features'])
    t = tab.axis(ax)
    k = rng.randint(1, t.np)
    locs = rng.sample(range(t.np), k)
    new = gentab(rng, rng.choice(['int', 'float', 'mixed', 'str']), k, t.nf,
                 pn='none', fn='none')
    ids = [ident(rng, t.pn, i, t.np) for i in locs]
    if rng.random() < .06:
        ids[0] = 'nosuch'

    def model(tab):
        t = tab.axis(ax)
        if 'nosuch' in ids:
            raise Refuse('name')
        for i, r in zip(locs, new.rows):
            t.rows[i] = list(r)
        return fromax(t, ax), None
    return Op(f'{ax}.replace', f'{ids} with {new.rows}',
              lambda o, a, rt: axobj(o, ax).replace(a[0], ids, useLog=False),
              model, True, [fromax(new, ax)])


# -------------------------------------------------------------------- C08
def transpose(rng, tab):
    return Op('transpose', '', lambda o, a, rt: o.transpose(useLog=False),
              lambda tab: (tab.T(), None), True)


def Tprop(rng, tab):
    return Op('T', '', lambda o, a, rt: o.T, lambda tab: (tab, tab.T()),
              False)


def rectangle(rng, tab):
    p = sorted(rng.choices(range(tab.np), k=2))
    f = sorted(rng.choices(range(tab.nf), k=2))
    if rng.random() < .06:
        p[1] = tab.np
    cst = rng.random() < .4
    new = gentab(rng, rng.choice(['int', 'float', 'zero', 'nan', 'mixed']),
                 p[1] - p[0] + 1, f[1] - f[0] + 1, pn='none', fn='none')
    c = rng.choice([0, 5, -1, 2.5])
    bad = not cst and rng.random() < .06
    ids = (ident(rng, tab.pn, p[0], tab.np), ident(rng, tab.fn, f[0],
                                                   tab.nf),
           p[1] if p[1] == tab.np else ident(rng, tab.pn, p[1], tab.np),
           ident(rng, tab.fn, f[1], tab.nf))
    if bad:
        new = Tab([r + [1] for r in new.rows])

    def model(tab):
        if p[1] >= tab.np or bad:
            raise Refuse('range')
        for i in range(p[0], p[1] + 1):
            for j in range(f[0], f[1] + 1):
                tab.rows[i][j] = c if cst else new.rows[i - p[0]][j - f[0]]
        return tab, None
    return Op('replaceRectangle', f'{ids} with {c if cst else new.rows}',
              lambda o, a, rt: o.replaceRectangle(
                  c if cst else a[0], *ids, useLog=False), model, True,
              [] if cst else [new])


def setitem(rng, tab):
    r = rng.random()
    v = rng.choice([0, 1, 2.5, -3, 'zz', None])
    i, j = rng.randrange(tab.np), rng.randrange(tab.nf)
    if r < .6:
        x, y = ident(rng, tab.pn, i, tab.np), ident(rng, tab.fn, j, tab.nf)
        ps, fs = [i], [j]
    elif r < .8:
        x, ps = slice(None), list(range(tab.np))
        y, fs = ident(rng, tab.fn, j, tab.nf), [j]
    else:
        ps = rng.sample(range(tab.np), rng.randint(1, tab.np))
        fs = rng.sample(range(tab.nf), rng.randint(1, tab.nf))
        x = [ident(rng, tab.pn, q, tab.np) for q in ps]
        y = [ident(rng, tab.fn, q, tab.nf) for q in fs]

    def model(tab):
        for p in ps:
            for f in fs:
                tab.rows[p][f] = v
        return tab, None
    return Op('[]=', f'[{x!r}, {y!r}] = {v!r}',
              lambda o, a, rt: o.__setitem__((x, y), v), model, True,
              text=v == 'zz')


def flat(tab, order):
    pn = [tab.pn[i] if tab.pn[i] is not None else None
          for i in range(tab.np)]
    if order == 'point':
        cells = [(i, j) for i in range(tab.np) for j in range(tab.nf)]
    else:
        cells = [(i, j) for j in range(tab.nf) for i in range(tab.np)]
    return cells


def flatten(rng, tab):
    order = rng.choice(['point', 'feature'])

    def apply(o, a, rt):
        o.flatten(order=order, useLog=False)
        r = read(o)
        o.unflatten((tab.np, tab.nf), order=order, useLog=False)
        return r.rows[0]

    def model(tab):
        cells = flat(tab, order)
        new = tab.copy()
        if tab.np == 1 and tab.nf > 1 and False:
            pass
        return new, [tab.rows[i][j] for i, j in cells]
    full = all(all(x) or not any(x) for x in (tab.pn, tab.fn)) and \
        (any(tab.pn) == any(tab.fn)) and tab.np * tab.nf > 1
    return Op('flatten/unflatten', order, apply, model, True,
              selfnames=full)


C03 = [structural, structural, structural, count]
C02 = [getitem, getitem, lookups]
C04 = [permute, sortop, insertion, repeat, replaceax]
C08 = [transpose, Tprop, rectangle, setitem, flatten]
