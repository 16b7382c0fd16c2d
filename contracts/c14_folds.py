"""Cross validation folds."""
from contracts._common import *

TUNE = 'nimble.core.tune:'


def gk(rng):
    return dict(self=dict(points=rng.randint(0, 9), folds=rng.randint(1, 6)))


contract('kfold_list', 'C14', TUNE + 'KFoldIterator.makeFoldList', {},
         selfp=Obj(TUNE + 'KFoldIterator', points=Int(0), folds=Int(1)),
         gen=gk, budget=500, cand_ms=2500,
         raises={'InvalidArgumentValueCombination':
                 'self.points < self.folds'},
         ensures=[
             ('k folds', 'len(result) == self.folds'),
             ('sizes differ by at most one', 'all(len(result[f]) == '
              'self.points // self.folds or len(result[f]) == self.points '
              '// self.folds + 1 for f in range(len(result)))'),
             ('points exist', 'all(0 <= result[f][a] and result[f][a] < '
              'self.points for f in range(len(result)) for a in '
              'range(len(result[f])))'),
             ('no point twice in a fold', 'all(implies(a != b, result[f][a]'
              ' != result[f][b]) for f in range(len(result)) for a in '
              'range(len(result[f])) for b in range(len(result[f])))'),
             ('folds disjoint', 'all(implies(f != g, result[f][a] != '
              'result[g][b]) for f in range(len(result)) for g in '
              'range(len(result)) for a in range(len(result[f])) for b in '
              'range(len(result[g])))')],
         pool=[
             PoolItem('len(L) == k', L='list!'),
             PoolItem('e == k * (self.points // self.folds) + min(k, '
                      'self.points % self.folds)', e='int!'),
             PoolItem('(n - k) * (self.points // self.folds) >= 0'),
             PoolItem('e + (n - k) * (self.points // self.folds) + self.'
                      'points % self.folds - min(k, self.points % '
                      'self.folds) == self.points', e='int!'),
             PoolItem('0 <= e and e <= self.points', e='int!'),
             PoolItem('all(0 <= L[f][a] and L[f][a] < self.points and '
                      '0 <= shufpos(L[f][a]) and shufpos(L[f][a]) < e for f '
                      'in range(k) for a in range(len(L[f])))', L='list!',
                      e='int!'),
             PoolItem('all(implies(a != b, L[f][a] != L[f][b]) for f in '
                      'range(k) for a in range(len(L[f])) for b in '
                      'range(len(L[f])))', L='list!'),
             PoolItem('all(implies(f != g, L[f][a] != L[g][b]) for f in '
                      'range(k) for g in range(k) for a in range(len(L[f]))'
                      ' for b in range(len(L[g])))', L='list!'),
             PoolItem('all(len(L[f]) == self.points // self.folds or len('
                      'L[f]) == self.points // self.folds + 1 for f in '
                      'range(k))', L='list!')])

contract('group_list', 'C14', TUNE + 'GroupFoldIterator.makeFoldList', {},
         selfp=Obj(TUNE + 'GroupFoldIterator', foldFeature=Vec(Opq())),
         cand_ms=6000,
         ensures=[
             ('points exist', 'all(0 <= result[f][a] and result[f][a] < '
              'len(cells(self.foldFeature)) for f in range(len(result)) for '
              'a in range(len(result[f])))'),
             ('a fold is one group', 'all(cells(self.foldFeature)['
              'result[f][a]] == cells(self.foldFeature)[result[f][b]] for f '
              'in range(len(result)) for a in range(len(result[f])) for b '
              'in range(len(result[f])))'),
             ('one fold per group', 'all(implies(f != g, cells('
              'self.foldFeature)[result[f][a]] != cells(self.foldFeature)['
              'result[g][b]]) for f in range(len(result)) for g in '
              'range(len(result)) for a in range(len(result[f])) for b in '
              'range(len(result[g])))'),
             ('every point once, in order', 'all(implies(a < b, result[f]'
              '[a] < result[f][b]) for f in range(len(result)) for a in '
              'range(len(result[f])) for b in range(len(result[f])))'),
             ('no fold is empty', 'all(len(result[f]) > 0 for f in '
              'range(len(result)))'),
             ('every group has a fold', 'all(any(cells(self.foldFeature)['
              'result[f][0]] == cells(self.foldFeature)[i] for f in '
              'range(len(result))) for i in range(len(cells('
              'self.foldFeature))))')],
         pool=[
             PoolItem('all(0 <= D[g][a] and D[g][a] < k and '
                      'cells(self.foldFeature)[D[g][a]] == g for g in D for '
                      'a in range(len(D[g])))', D='dict'),
             PoolItem('all(implies(a < b, D[g][a] < D[g][b]) for g in D for '
                      'a in range(len(D[g])) for b in range(len(D[g])))',
                      D='dict'),
             PoolItem('all(len(D[g]) > 0 for g in D)', D='dict'),
             PoolItem('all(cells(self.foldFeature)[i] in D for i in '
                      'range(k))', D='dict')])
