"""Runs random operations of bounded/ops.py against the table model."""
import random

from . import ops
from .model import *


def runops(api, makers, n, lo=1, hi=4, types=TYPES, viewp=.25, tag='op',
           kinds=None, share=1.0, modelonly=False):
    """n random (table, operation) pairs, each on every data type"""
    limit = api.left() * (1 - share)
    if api.thorough:
        n *= 8
    for i in range(n):
        key = f'{tag} {i}'
        if api.only is not None and not api.only.startswith(key + ' '):
            continue
        if api.left() < limit:
            break
        rng = api.rng(tag, i)
        f = rng.choice(makers)
        tab = gentab(rng, lo=lo, hi=hi, **(dict(kinds=kinds) if kinds
                                           else {}))
        try:
            op = f(rng, tab)
        except Skip:
            continue
        v = rng.random() < viewp
        hows = [rng.choice(HOW) for _ in types]
        for rt, how in zip(types, hows):
            api.case(f'{key} {rt}', one, tab, rt, how, op,
                     api.rng(tag, i, 'v') if v else None)


def one(tab, rt, how, op, view):
    try:
        ops.step(tab, rt, how, op, view)
    except Skip:
        pass
    except Check as e:
        e.args = (f'{e.args[0]}; table {tab}',)
        raise


def runhist(api, makers, n, length=6, tag='hist', types=TYPES, share=1.0):
    """histories: the same sequence of operations on one object of each
    type, compared with the model after every operation"""
    limit = api.left() * (1 - share)
    if api.thorough:
        n *= 8
    for i in range(n):
        key = f'{tag} {i}'
        if api.only is not None and not api.only.startswith(key + ' '):
            continue
        if api.left() < limit:
            break
        for rt in types:
            api.case(f'{key} {rt}', history, api.rng(tag, i), rt, makers,
                     length)


def history(rng, rt, makers, length):
    tab = gentab(rng, kinds=('int', 'float', 'nan', 'zero', 'mixed'), lo=1)
    start = tab
    log = []
    try:
        o = mk(tab, rt, rng.choice(HOW))
    except Skip:
        return
    for k in range(length):
        if not tab.np or not tab.nf or tab.np * tab.nf > 60:
            return
        try:
            op = rng.choice(makers)(rng, tab)
        except Skip:
            continue
        if rt == 'Sparse' and (op.text or any(
                isinstance(v, str) for t in op.argtabs for r in t.rows
                for v in r)):
            continue
        try:
            new, ret = op.model(tab.copy())
            refuse = None
        except Refuse as e:
            refuse = e
        except Skip:
            continue
        if refuse is None and not op.selfnames:
            continue
        try:
            args = [mk(t, rt) for t in op.argtabs]
        except Skip:
            continue
        log.append(f'{op.name} {op.desc}')
        what = f'{start} {rt}: ' + '; '.join(log)
        st, val = attempt(op.apply, o, args, rt)
        if refuse is not None:
            expect(st == 'raise', lambda: f'{what}: must be refused '
                   f'({refuse})')
        else:
            if st == 'raise':
                raise Check(f'{what}: raised {type(val).__name__}: '
                            f'{str(val)[:200]}') from val
            if val is not o:
                ops.compare(val, ret, what, op)
            tab = new
        same(o, tab, what, op.tol)


def loop(api, tag, n, fn, share=1.0):
    """n cases fn(rng), reproducible by key"""
    limit = api.left() * (1 - share)
    if api.thorough:
        n *= 8
    for i in range(n):
        key = f'{tag} {i}'
        if api.only is not None and api.only != key:
            continue
        if api.left() < limit:
            break
        api.case(key, guarded, fn, api.rng(tag, i))


def guarded(fn, rng):
    try:
        fn(rng)
    except Skip:
        pass
