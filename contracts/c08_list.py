"""Reshaping the List type: every cell keeps its value, at its new place."""
from contracts._common import *
from contracts.c04_list import CELL, CELLS, LB, lbase

RECT = ('len(self._data) == self._dims[0] and '
        'all(len(self._data[i]) == self._dims[1] '
        'for i in range(self._dims[0])) and '
        'self._numFeatures == self._dims[1]')


def lself(**kw):
    d = dict(points=List(Int()), features=List(Int()))
    d.update(kw)
    return lbase(**d)


def gen_self(rng, lo=0):
    r, c = rng.randint(lo, 4), rng.randint(lo, 4)
    return dict(_dims=[r, c], _numFeatures=c, points=list(range(r)),
                features=list(range(c)),
                _data=[[rng.choice(CELLS) for _ in range(c)]
                       for _ in range(r)])


AX = ['len(self.points) == self._dims[0]',
      'len(self.features) == self._dims[1]']
NP, NF = 'old(self._dims)[0]', 'old(self._dims)[1]'


def gen_box(rng):
    s = gen_self(rng, 1)
    r, c = s['_dims']
    p0, f0 = rng.randrange(r), rng.randrange(c)
    return dict(self=s, pointStart=p0, featureStart=f0,
                pointEnd=rng.randrange(p0, r), featureEnd=rng.randrange(f0, c))


BOX = ['pointStart <= pointEnd', 'pointEnd < self._dims[0]',
       'featureStart <= featureEnd', 'featureEnd < self._dims[1]']
IN = ('pointStart <= i and i <= pointEnd and featureStart <= j and '
      'j <= featureEnd')


def box_post(val):
    return [('the shape stays', f'len(self._data) == {NP} and all(len('
             f'self._data[i]) == {NF} for i in range({NP}))'),
            ('the rectangle gets the values', f'all(all(implies({IN}, '
             f'self._data[i][j] == {val}) for j in range({NF})) for i in '
             f'range({NP}))'),
            ('nothing else changes', f'all(all(implies(not ({IN}), '
             f'self._data[i][j] == old(self._data)[i][j]) for j in '
             f'range({NF})) for i in range({NP}))')]


def box_pool(val):
    d = '(pointStart <= i and i < pointStart + k)'
    return [
        PoolItem(f'len(self._data) == {NP}'),
        PoolItem(f'all(len(self._data[i]) == {NF} for i in range({NP}))'),
        PoolItem(f'all(implies(not {d}, self._data[i] == '
                 f'old(self._data)[i]) for i in range({NP}))'),
        PoolItem(f'all(implies({d}, all(self._data[i][j] == (({val}) if '
                 f'featureStart <= j and j <= featureEnd else '
                 f'old(self._data)[i][j]) for j in range({NF}))) for i in '
                 f'range({NP}))')]


def scalar(eng):
    eng.models[('isinstance', 'Base')] = lambda e, v: False


contract('list_replace_constant', ['C08', 'C09'],
         LB + '._replaceRectangle_implementation',
         dict(replaceWith=Opq(), pointStart=Int(0), featureStart=Int(0),
              pointEnd=Int(0), featureEnd=Int(0)), selfp=lself(),
         requires=[RECT] + BOX, overrides=scalar,
         gen=lambda rng: dict(gen_box(rng), replaceWith=rng.choice(CELLS)),
         ensures=box_post('replaceWith'), pool=box_pool('replaceWith'))


def gen_box2(rng):
    d = gen_box(rng)
    r = d['pointEnd'] - d['pointStart'] + 1
    c = d['featureEnd'] - d['featureStart'] + 1
    d['replaceWith'] = dict(_data=[[rng.choice(CELLS) for _ in range(c)]
                                   for _ in range(r)], _dims=[r, c])
    return d


V = 'replaceWith._data[i - pointStart][j - featureStart]'
contract('list_replace_object', ['C08'],
         LB + '._replaceRectangle_implementation',
         dict(replaceWith=Obj('nimble.core.data.base:Base',
                              _data=List(List(CELL)), _dims=Items(Int(0),
                                                                  Int(0))),
              pointStart=Int(0), featureStart=Int(0),
              pointEnd=Int(0), featureEnd=Int(0)), selfp=lself(),
         requires=[RECT] + BOX + [
             'len(replaceWith._data) == pointEnd - pointStart + 1',
             'all(len(replaceWith._data[i]) == featureEnd - featureStart + 1'
             ' for i in range(len(replaceWith._data)))'],
         gen=gen_box2,
         ensures=box_post(V) + [('the source of the values stays',
                                 'replaceWith._data == '
                                 'old(replaceWith._data)')],
         pool=box_pool(V))

contract('list_transpose', 'C08', LB + '._transpose_implementation', {},
         prove=False, selfp=lself(), requires=[RECT] + AX,
         gen=lambda rng: dict(self=gen_self(rng)),
         ensures=[('one row per feature', f'len(self._data) == {NF} and '
                   f'all(len(self._data[j]) == {NP} for j in range({NF}))'),
                  ('each cell at its mirrored place', 'all(all('
                   'self._data[j][i] == old(self._data)[i][j] for j in '
                   f'range({NF})) for i in range({NP}))'),
                  ('the feature count', f'self._numFeatures == {NP}')],
         pool=[PoolItem('len(L) == k', L='list'),
               PoolItem('all(len(L[j]) == 0 for j in range(k))', L='list'),
               PoolItem(f'len(L) == {NF}', L='list'),
               PoolItem(f'all(len(L[j]) == k for j in range({NF}))',
                        L='list'),
               PoolItem('all(all(L[j][i] == old(self._data)[i][j] for i in '
                        f'range(k)) for j in range({NF}))', L='list'),
               # inside a point: the features done have one value more
               PoolItem('all(len(L[j]) == len(entry(L)[j]) + (1 if j < k '
                        f'else 0) for j in range({NF}))', L='list'),
               PoolItem('all(all(L[j][i] == entry(L)[j][i] for i in '
                        f'range(len(entry(L)[j]))) for j in range({NF}))',
                        L='list'),
               PoolItem('all(L[j][len(entry(L)[j])] == item(j)[1] for j in '
                        'range(k))', L='list')])

contract('list_flatten_points', 'C08', LB + '._flatten_implementation',
         dict(order=Const('point')), prove=False, selfp=lself(),
         requires=[RECT, 'self._dims[0] > 0', 'self._dims[1] > 0'] + AX,
         gen=lambda rng: dict(self=gen_self(rng, 1)),
         ensures=[('one point', 'len(self._data) == 1'),
                  ('as many cells', f'len(self._data[0]) == {NP} * {NF}'),
                  ('point by point', 'all(all(self._data[0][i * '
                   f'{NF} + j] == old(self._data)[i][j] for j in '
                   f'range({NF})) for i in range({NP}))')],
         pool=[PoolItem(f'len(self._data) == {NP} - k'),
               PoolItem(f'len(self._data[0]) == (k + 1) * {NF}'),
               PoolItem('all(self._data[i] == old(self._data)[i + k] for i '
                        f'in range(1, {NP} - k))'),
               PoolItem(f'all(all(self._data[0][i * {NF} + j] == '
                        f'old(self._data)[i][j] for j in range({NF})) for '
                        'i in range(k + 1))')])

contract('list_flatten_features', 'C08', LB + '._flatten_implementation',
         dict(order=Const('feature')), prove=False, selfp=lself(),
         requires=[RECT, 'self._dims[0] > 0', 'self._dims[1] > 0'] + AX,
         gen=lambda rng: dict(self=gen_self(rng, 1)),
         ensures=[('one point', 'len(self._data) == 1'),
                  ('as many cells', f'len(self._data[0]) == {NP} * {NF}'),
                  ('feature by feature', 'all(all(self._data[0][j * '
                   f'{NP} + i] == old(self._data)[i][j] for j in '
                   f'range({NF})) for i in range({NP}))')],
         pool=[PoolItem('len(L) == 1', L='list'),
               PoolItem(f'len(L[0]) == k * {NP}', L='list'),
               PoolItem(f'all(all(L[0][j * {NP} + i] == '
                        f'self._data[i][j] for i in range({NP})) for '
                        'j in range(k))', L='list')])
