"""The List type's own selection, reordering and repetition: its back end is
plain Python, so it is under contract where the other types' back ends are
numpy, pandas and scipy (bounded there)."""
from contracts._common import *

LA = 'nimble.core.data.listAxis:'
LB = 'nimble.core.data.list:List'
CELL = Opq()
CELLS = [0, 1, 2, 'x', 2.5, None, -1]


def lbase(**kw):
    d = dict(_dims=Items(Int(0), Int(0)), _numFeatures=Int(0),
             _data=List(List(CELL)), points=List(Int()))
    d.update(kw)
    return Obj(LB, **d)


RECT = ('len(self._base._data) == self._base._dims[0] and '
        'len(self._base.points) == self._base._dims[0] and '
        'all(len(self._base._data[i]) == self._base._dims[1] '
        'for i in range(self._base._dims[0])) and '
        'self._base._numFeatures == self._base._dims[1]')


def laxis(pt=None, **kw):
    return Obj(LA + 'ListAxis', _isPoint=Bool() if pt is None else Const(pt),
               _base=lbase(), **kw)


def gen_rect(rng, pt=None, lo=0):
    r, c = rng.randint(lo, 4), rng.randint(lo, 3)
    return dict(_isPoint=rng.random() < .5 if pt is None else pt,
                _base=dict(_dims=[r, c], _numFeatures=c, points=list(range(r)),
                           _data=[
                    [rng.choice(CELLS) for _ in range(c)] for _ in range(r)]))


def newlist(eng):
    """construction of a List: recorded with its arguments"""
    def new(e, cls, args, kw):
        from pyvc.values import HObj
        o = e.new(HObj('NewList'))
        o.fields['data'] = args[0]
        for k in ('pointNames', 'featureNames', 'shape'):
            o.fields[k] = kw.get(k)
        return o
    eng.models[('new', 'List')] = new


def names_override(eng):
    newlist(eng)
    eng.summaries['nimble.core.data.axis:Axis._getStructuralNames'] = \
        lambda e, a, k: (None, None)


import types


class NewList:
    def __init__(self, data, pointNames=None, featureNames=None, shape=None,
                 **kw):
        self.data, self.pointNames = data, pointNames
        self.featureNames, self.shape = featureNames, shape


def structural(env):
    """the real back end, with the constructed List's arguments recorded"""
    import nimble.core.data.listAxis as m
    import nimble.core.data as d
    o = env['self']
    o._getStructuralNames = lambda t: (None, None)
    saved = d.List
    d.List = NewList
    try:
        return m.ListAxis._structuralBackend_implementation(
            o, env['structure'], env['targetList'])
    finally:
        d.List = saved


def gen_struct(pt):
    def gen(rng):
        s = gen_rect(rng, pt)
        n = s['_base']['_dims'][0 if pt else 1]
        ids = list(range(n))
        rng.shuffle(ids)
        return dict(self=s, structure=rng.choice(
            ['copy', 'extract', 'delete', 'retain']),
            targetList=ids[:rng.randint(0, n)])
    return gen


DISTINCT = ('all(all(implies(i != j, targetList[i] != targetList[j]) '
            'for j in range(len(targetList))) '
            'for i in range(len(targetList)))')

contract('list_structural_points', ['C03', 'C04'],
         LA + 'ListAxis._structuralBackend_implementation',
         dict(structure=Fork(Const('copy'), Const('extract')),
              targetList=List(Int(0))),
         selfp=laxis(True), overrides=names_override, native=structural,
         gen=gen_struct(True),
         requires=[RECT, 'all(x < self._base._dims[0] for x in targetList)',
                   DISTINCT],
         ensures=[
             ('one point per target', 'len(result.data) == len(targetList)'),
             ('the denoted points in order',
              'all(result.data[i] == old(self._base._data)[targetList[i]] '
              'for i in range(len(targetList)))'),
             ('copy keeps the source', 'implies(structure == "copy", '
              'self._base._data == old(self._base._data))'),
             ('only the others remain', 'implies(structure != "copy", '
              'all(any(self._base._data[i] == old(self._base._data)[j] and '
              'j not in targetList for j in range(old(self._base._dims)[0])) '
              'for i in range(len(self._base._data))))'),
             ('an empty selection keeps the other dimension',
              'implies(len(targetList) == 0, result.shape[0] == 0 and '
              'result.shape[1] == old(self._base._dims)[1])')],
         pool=[PoolItem('countin(S, k) == k - len(L)', S='list', L='list')])

contract('list_structural_features', ['C03', 'C04'],
         LA + 'ListAxis._structuralBackend_implementation',
         dict(structure=Fork(Const('copy'), Const('extract')),
              targetList=List(Int(0))),
         selfp=laxis(False), overrides=names_override, native=structural,
         gen=gen_struct(False),
         requires=[RECT, 'all(x < self._base._dims[1] for x in targetList)',
                   'self._base._dims[0] > 0', DISTINCT],
         ensures=[
             ('one row per point', 'len(result.data) == old(self._base._dims)[0]'),
             ('the denoted features in order', 'all(len(result.data[i]) == '
              'len(targetList) and all(result.data[i][j] == '
              'old(self._base._data)[i][targetList[j]] for j in '
              'range(len(targetList))) for i in range(len(result.data)))'),
             ('copy keeps the source', 'implies(structure == "copy", '
              'self._base._data == old(self._base._data))'),
             ('feature count', 'implies(structure != "copy", '
              'self._base._numFeatures == old(self._base._numFeatures) - '
              'len(targetList))')])


POOLP = [PoolItem('all(self._base._data[j] == old(self._base._data)['
                  'indexPosition[j]] for j in range(k))'),
         PoolItem('len(self._base._data) == len(old(self._base._data))')]
POOLF = [PoolItem('all(all(self._base._data[i][j] == old(self._base._data)'
                  '[i][indexPosition[j]] for j in range(len(indexPosition)))'
                  ' for i in range(k))'),
         PoolItem('all(implies(i >= k, self._base._data[i] == '
                  'old(self._base._data)[i]) for i in '
                  'range(len(self._base._data)))'),
         PoolItem('all(len(self._base._data[i]) == self._base._dims[1] '
                  'for i in range(len(self._base._data)))'),
         PoolItem('len(self._base._data) == len(old(self._base._data))')]


def perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


contract('list_permute_points', 'C04', LA + 'ListAxis._permute_implementation',
         dict(indexPosition=List(Int(0))), selfp=laxis(True),
         gen=lambda rng: (lambda s: dict(self=s, indexPosition=perm(
             rng, s['_base']['_dims'][0])))(gen_rect(rng, True)),
         requires=[RECT, 'len(indexPosition) == self._base._dims[0]',
                   'all(x < self._base._dims[0] for x in indexPosition)'],
         ensures=[('the new order', 'len(self._base._data) == '
                   'len(indexPosition) and all(self._base._data[i] == '
                   'old(self._base._data)[indexPosition[i]] for i in '
                   'range(len(indexPosition)))')], pool=POOLP)

contract('list_permute_features', 'C04',
         LA + 'ListAxis._permute_implementation',
         dict(indexPosition=List(Int(0))), selfp=laxis(False),
         gen=lambda rng: (lambda s: dict(self=s, indexPosition=perm(
             rng, s['_base']['_dims'][1])))(gen_rect(rng, False)),
         requires=[RECT, 'len(indexPosition) == self._base._dims[1]',
                   'all(x < self._base._dims[1] for x in indexPosition)'],
         ensures=[('the new order', 'len(self._base._data) == '
                   'self._base._dims[0] and all(len(self._base._data[i]) == '
                   'self._base._dims[1] and all(self._base._data[i][j] == '
                   'old(self._base._data)[i][indexPosition[j]] for j in '
                   'range(len(indexPosition))) for i in '
                   'range(self._base._dims[0]))')], pool=POOLF)

for nm, pt in (('points', True), ('features', False)):
    for byv in (True, False):
        T = 'totalCopies'
        n = 'self._base._dims[%d]' % (0 if pt else 1)
        ix = f'({{0}} // {T})' if byv else f'({{0}} % {n})'
        if pt:
            ens = [('repeated points', f'len(result) == {n} * {T} and '
                    f'all(result[i] == self._base._data[{ix.format("i")}] '
                    'for i in range(len(result)))')]
        else:
            ens = [('repeated features', 'len(result) == self._base._dims[0] '
                    f'and all(len(result[i]) == {n} * {T} and '
                    f'all(result[i][j] == self._base._data[i]'
                    f'[{ix.format("j")}] for j in range({n} * {T})) '
                    'for i in range(len(result)))')]
        contract(f'list_repeat_{nm}_{"each" if byv else "all"}', 'C04',
                 LA + 'ListAxis._repeat_implementation',
                 dict(totalCopies=Int(1, glo=1, ghi=4),
                      copyVectorByVector=Const(byv)),
                 selfp=laxis(pt), gen=lambda rng, pt=pt: dict(
                     self=gen_rect(rng, pt)),
                 requires=[RECT],
                 ensures=ens + [('the source is kept', 'self._base._data == '
                                 'old(self._base._data)')])
