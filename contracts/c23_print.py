"""Printed tables."""
from contracts._common import *

BASE = 'nimble.core.data.base:Base'
HELP = 'nimble.core.data._dataHelpers:'


def gsplit(rng):
    lo = rng.randint(0, 4)
    n = rng.randint(1, 8)
    a = rng.randint(1 if n == 1 else 2, n)
    return dict(numAllow=a, iRange=range(lo, lo + n))


contract('indices_split', 'C23', HELP + 'indicesSplit',
         dict(numAllow=Int(1), iRange=Rng(Int(0), Int(0))), gen=gsplit,
         returns=Tup(List(Int()), List(Int())),
         requires=['iRange.start < iRange.stop',
                   'numAllow <= len(iRange)',
                   'numAllow >= 2 or len(iRange) == 1'],
         ensures=[
             ('the leading positions in order', 'all(result[0][i] == '
              'iRange.start + i for i in range(len(result[0])))'),
             ('the trailing positions in order', 'all(result[1][i] == '
              'iRange.stop - len(result[1]) + i for i in '
              'range(len(result[1])))'),
             ('none twice', 'len(result[0]) + len(result[1]) <= '
              'len(iRange)'),
             ('all when they fit', 'implies(numAllow >= len(iRange), '
              'len(result[0]) + len(result[1]) == len(iRange))'),
             ('one line left for the placeholder', 'implies(numAllow < '
              'len(iRange), len(result[0]) + len(result[1]) == '
              'numAllow - 1)'),
             ('some leading position', 'len(result[0]) >= 1')],
         pool=[PoolItem('len(L) == n', L='list!'),
               PoolItem('all(L[i] == i - len(L) + t for i in range(k))',
                        L='list!', t='int'),
               PoolItem('all(L[i] == i - len(L) for i in range(k, '
                        'len(L)))', L='list!')])


contract('print_target', 'C23',
         BASE + '._validateAndTruncatePrintTarget',
         dict(target=Rng(Int(), Int()), axisLength=Int(0)),
         selfp=Obj(BASE),
         ensures=[
             ('positions of the object', '0 <= result.start and '
              'result.start <= result.stop and result.stop <= axisLength'),
             ('those asked for', 'all(iff(i in target, i in result) for i '
              'in range(axisLength))')])

contract('format_value', 'C23', HELP + 'formatIfNeeded',
         dict(value=Val('int', 'bool', 'str', 'none', 'real', 'nan'),
              sigDigits=Const(None)),
         ensures=[('missing is blank', 'implies(value != value, result == '
                   '"")'),
                  ('else the text of the value', 'implies(value == value'
                   ', result == str(value))')])

contract('final_table', 'C23', HELP + 'arrangeFinalTable',
         dict(pnames=List(Str()), pnamesWidth=Int(0),
              dataTable=List(List(Str())), dataWidths=List(Int()),
              fnames=List(Str()), pnameSep=Str(['\u2502'])),
         requires=['len(pnames) == len(dataTable)', 'len(pnames) > 0'],
         ensures=[
             ('a header and the rows', 'len(result[0]) == 1 + '
              'len(old(dataTable))'),
             ('header is the feature names', 'len(result[0][0]) == 2 + '
              'len(fnames) and all(result[0][0][j + 2] == fnames[j] for j '
              'in range(len(fnames)))'),
             ('every row has its name', 'all(result[0][i + 1][0] == '
              'pnames[i] for i in range(len(pnames)))'),
             ('every row has its cells', 'all(len(result[0][i + 1]) == 2 + '
              'len(old(dataTable)[i]) and all(result[0][i + 1][j + 2] == '
              'old(dataTable)[i][j] for j in range(len(old(dataTable)[i])))'
              ' for i in range(len(pnames)))')],
         pool=[PoolItem('len(L) == n', L='list!'),
               PoolItem('all(L[i][0] == pnames[i] and len(L[i]) == 2 + '
                        'len(old(dataTable)[i]) for i in range(k))', 
                        L='list!'),
               PoolItem('all(all(L[i][j + 2] == old(dataTable)[i][j] for j '
                        'in range(len(old(dataTable)[i]))) for i in '
                        'range(k))', L='list!'),
               PoolItem('all(len(L[i]) == len(old(dataTable)[i]) and all('
                        'L[i][j] == old(dataTable)[i][j] for j '
                        'in range(len(old(dataTable)[i]))) for i in '
                        'range(k, n))', L='list!')])

class KNames:
    """stands in for the points of an object"""

    def __init__(self, names=()):
        self.names = names

    def _allDefaultNames(self):
        return self.names is None

    def getName(self, i):
        return self.names[i]


def knames(eng):
    eng.models[('KNames', '_allDefaultNames')] = \
        lambda e, o, a, k: e.is_(o.fields['names'], None)

    def getname(e, o, a, k):
        from pyvc.values import Val as V, SStr
        v = e.getitem(o.fields['names'], a[0])
        e.assume(V.is_VNone(v.e) | V.is_VStr(v.e))
        return None if e.decide(V.is_VNone(v.e)) else SStr(V.vs(v.e))
    eng.models[('KNames', 'getName')] = getname


def gpn(rng):
    n = rng.randint(1, 8)
    lo = rng.randint(0, n - 1)
    m = n - lo
    a = rng.randint(1 if m == 1 else 2, m)
    names = None if rng.random() < .3 else [rng.choice(
        [None, 'a', 'bcd', 'some longer name', 'x' * 9]) for _ in range(n)]
    return dict(self=dict(points=KNames(names)),
                pRange=range(lo, n), maxRows=a, nameLength=rng.randint(4, 9),
                rowHolder='\u2502', nameHold='\u2500',
                includePointNames=rng.random() < .7, quoteNames=False)


def shown(row, i):
    """the label of the point at that position"""
    d = ('self.points.names is None or not includePointNames or '
         f'self.points.names[{i}] is None')
    return (f'implies({d}, result[0][{row}] == str({i})) and implies(not '
            f'({d}) and len(self.points.names[{i}]) <= nameLength, '
            f'result[0][{row}] == self.points.names[{i}])')


contract('point_names', 'C23', BASE + '._arrangePointNames',
         dict(pRange=Rng(Int(0), Int(0)), maxRows=Int(1),
              nameLength=Int(3), rowHolder=Str(['\u2502']),
              nameHold=Str(['\u2500']), includePointNames=Bool(),
              quoteNames=Const(False)),
         selfp=Obj(BASE, points=Obj('KNames',
                   names=Opt(List(Val('none', 'str'))))), gen=gpn, overrides=knames,
         requires=['pRange.start < pRange.stop', 'maxRows <= len(pRange)',
                   'maxRows >= 2 or len(pRange) == 1',
                   'self.points.names is None or pRange.stop <= '
                   'len(self.points.names)'],
         prove=False,
         ensures=[
             ('rows within the limit', 'len(result[0]) <= maxRows'),
             ('all rows when they fit', 'implies(maxRows == len(pRange), '
              'len(result[0]) == maxRows and all(' + shown(
                  'k', '(pRange.start + k)') + ' for k in '
              'range(len(result[0]))))'),
             ('else a placeholder between the first and the last',
              'implies(maxRows < len(pRange), len(result[0]) == maxRows and '
              'any(result[0][h] == rowHolder and all(' + shown(
                  'k', '(pRange.start + k)') + ' for k in range(h)) and '
              'all(' + shown('(len(result[0]) - 1 - k)',
                             '(pRange.stop - 1 - k)') +
              ' for k in range(len(result[0]) - 1 - h)) for h in '
              'range(1, len(result[0]))))')])
