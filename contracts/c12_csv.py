"""Reading: names given as dictionaries, selections of points and features,
conversions by feature."""
from contracts._common import *
from contracts.c05_views import *

CH = 'nimble.core._createHelpers:'
KEEP = List(Val('int', 'str'))
PROPS = ['C12', 'C13']

contract('keep_validation', PROPS, CH + '_keepIndexValuesValidation',
         dict(axis=Str(['point', 'feature']), keepList=KEEP,
              nameList=Opt(List(Str()))),
         raises={'InvalidArgumentValue': 'not all(isinstance(x, int) and '
                 'x >= 0 for x in keepList)'},
         ensures=[('only positions are accepted', 'all(isinstance(x, int) '
                   'and x >= 0 for x in keepList)')])


def gen_keep(rng):
    n = rng.randint(0, 4)
    ns = rng.sample(['a', 'b', 'c', 'd', 'e'], n)
    ns = [x if rng.random() < .8 else None for x in ns]
    ids = list(range(n)) + [x for x in ns if x]
    keep = rng.sample(ids, rng.randint(0, len(ids)))
    if rng.random() < .6:
        keep = rng.sample(range(n), rng.randint(0, n))
        keep = [ns[i] if ns[i] and rng.random() < .5 else i for i in keep]
    if rng.random() < .2:
        keep.append(rng.choice([-1, n, n + 1, 'zz']))
    return dict(keepFeatures=keep, retFNames=ns)


contract('limit_to_kept', PROPS, CH + '_limitToKeptFeatures',
         dict(keepFeatures=KEEP, retFNames=List(Val('none', 'str'))),
         gen=gen_keep,
         raises={'InvalidArgumentValue': None},
         ensures=[
             ('one position and name for each kept feature',
              'len(result[0]) == len(keepFeatures) and len(result[1]) == '
              'len(keepFeatures)'),
             ('indices are the positions', 'all(implies(isinstance('
              'keepFeatures[i], int), result[0][i] == keepFeatures[i]) for i '
              'in range(len(keepFeatures)))'),
             ('positions are in the file', 'all(0 <= result[0][i] and '
              'result[0][i] < len(retFNames) for i in '
              'range(len(keepFeatures)))'),
             ('names are those at the positions', 'all(result[1][i] == '
              'retFNames[result[0][i]] for i in range(len(keepFeatures)))'),
             ('no position twice', 'all(all(i == j or result[0][i] != '
              'result[0][j] for j in range(len(keepFeatures))) for i in '
              'range(len(keepFeatures)))'),
             ('names select what they name', 'all(implies(isinstance('
              'keepFeatures[i], str), result[1][i] == keepFeatures[i]) for i '
              'in range(len(keepFeatures)))')],
         pool=[PoolItem('len(L) == k', L='list!'),
               PoolItem('all(0 <= L[j] and L[j] < len(retFNames) for j in '
                        'range(k))', L='list!'),
               PoolItem('all(isinstance(L[j], int) and 0 <= L[j] and L[j] < '
                        'len(retFNames) for j in range(k))', L='list!'),
               PoolItem('all(implies(isinstance(keepFeatures[j], int), '
                        'L[j] == keepFeatures[j]) for j in range(k))',
                        L='list!'),
               PoolItem('all(implies(isinstance(keepFeatures[j], str), '
                        'L[j] == keepFeatures[j]) for j in range(k))',
                        L='list!'),
               PoolItem('all(all(i == j or L[i] != L[j] for j in range(k)) '
                        'for i in range(k))', L='list!'),
               PoolItem('all(L[j] == retFNames[M[j]] for j in range(k))',
                        L='list!', M='list!')])


def gen_dict(rng):
    n = rng.randint(0, 4)
    ns = rng.sample(['a', 'b', 'c', 'd', 'e'], n)
    pos = list(range(n))
    rng.shuffle(pos)
    if n and rng.random() < .3:
        pos[0] = rng.choice([-1, n, pos[-1]])
    return dict(names=dict(zip(ns, pos)), kind='point', paramName='p')


contract('names_dict_to_list', PROPS, CH + '_namesDictToList',
         dict(names=Dict(Str(), Int()), kind=Str(['point']),
              paramName=Str(['pointNames'])), gen=gen_dict,
         raises={'InvalidArgumentValue': ('only', 'any(names[x] < 0 or '
                 'names[x] >= len(names) for x in names) or any(any(x != y '
                 'and names[x] == names[y] for y in names) for x in names)')},
         ensures=[('one name for each', 'len(result) == len(names)'),
                  ('each name is at its position', 'all(0 <= names[x] and '
                   'names[x] < len(result) and result[names[x]] == x for x '
                   'in names)')],
         pool=[PoolItem('len(L) == len(names)', L='list!'),
               PoolItem('all(0 <= names[item(j)] and names[item(j)] < '
                        'len(L) and L[names[item(j)]] == item(j) for j '
                        'in range(k))', L='list!'),
               PoolItem('all(implies(L[i] is not None, any(L[i] == '
                        'item(j) and names[item(j)] == i for j in range(k))) '
                        'for i in range(len(L)))', L='list!')])


class Feats:
    def __init__(self, n, names):
        self.n, self.names = n, names

    def __len__(self):
        return self.n

    def _getNamesNoGeneration(self):
        return self.names


def feats(eng):
    eng.models[('Feats', '_getNamesNoGeneration')] = \
        lambda e, o, a, k: o.fields['names']
    eng.models[('Feats', '__len__')] = lambda e, o, a, k: o.fields['n']


def gen_conv(rng):
    n = rng.randint(0, 4)
    ns = rng.sample(['a', 'b', 'c', 'd', 'e'], n)
    keys = rng.sample(list(range(n)) + ns, rng.randint(0, n))
    if rng.random() < .2:
        keys.append(rng.choice(['zz', n]))
    names = [x if rng.random() < .9 else None for x in ns]
    if rng.random() < .25:
        names = None
    return dict(convertToType={x: rng.choice('pqr') for x in keys},
                featuresObj=Feats(n, names),
                featureNames=rng.choice([None, ns]))


contract('convert_types_by_feature', 'C13', CH + 'convertToTypeDictToList',
         dict(convertToType=Dict(Val('int', 'str'), Opq()),
              featuresObj=Obj('Feats', n=Int(0),
                              names=Opt(List(Val('none', 'str')))),
              featureNames=Opt(List(Str()))), gen=gen_conv, overrides=feats,
         requires=['featuresObj.names is None or len(featuresObj.names) == '
                   'featuresObj.n',
                   'featuresObj.names is None or all(all(i == j or '
                   'featuresObj.names[i] is None or featuresObj.names[i] != '
                   'featuresObj.names[j] for j in range(featuresObj.n)) for i '
                   'in range(featuresObj.n))'],
         raises={'InvalidArgumentValue': None},
         ensures=[
             ('one type for each feature', 'len(result) == featuresObj.n'),
             ('a type given by position', 'all(implies(i in '
              'old(convertToType), result[i] == old(convertToType)[i]) for i '
              'in range(featuresObj.n))'),
             ('a type given by name', 'implies(featuresObj.names is not None,'
              ' all(implies(featuresObj.names[i] in old(convertToType), '
              'result[i] == old(convertToType)[featuresObj.names[i]]) for i '
              'in range(featuresObj.n)))'),
             ('no type otherwise', 'all(implies(i not in old(convertToType) '
              'and (featuresObj.names is None or featuresObj.names[i] not in '
              'old(convertToType)), result[i] is None) for i in '
              'range(featuresObj.n))'),
             ('the argument stays', 'all(x in convertToType and '
              'convertToType[x] == old(convertToType)[x] for x in '
              'old(convertToType)) and len(convertToType) == '
              'len(old(convertToType))')],
         pool=[PoolItem('len(L) == featuresObj.n', L='list'),
               PoolItem('all(x in old(convertToType) and D[x] == '
                        'old(convertToType)[x] for x in D)', D='dict'),
               PoolItem('all(implies(i >= k, iff(i in D, i in '
                        'old(convertToType))) for i in range(featuresObj.n))',
                        D='dict'),
               PoolItem('all(implies(i >= k, L[i] is None) for i in '
                        'range(featuresObj.n))', L='list'),
               PoolItem('featuresObj.names is None or all(implies(i >= k, '
                        'iff(featuresObj.names[i] in D, featuresObj.names[i] '
                        'in old(convertToType))) for i in '
                        'range(featuresObj.n))', D='dict'),
               PoolItem('all(implies(j in old(convertToType), L[j] == '
                        'old(convertToType)[j]) for j in range(k))',
                        L='list'),
               PoolItem('featuresObj.names is None or all(implies('
                        'featuresObj.names[j] in old(convertToType), L[j] == '
                        'old(convertToType)[featuresObj.names[j]]) for j in '
                        'range(k))', L='list'),
               PoolItem('all(implies(j not in old(convertToType) and ('
                        'featuresObj.names is None or featuresObj.names[j] '
                        'not in old(convertToType)), L[j] is None) for j in '
                        'range(k))', L='list')])


class KAxis:
    """an axis where identifiers name the positions of a map"""
    _axis = 'point'

    def __init__(self, where):
        self.where = where

    def getIndex(self, x):
        if x not in self.where:
            raise KeyError(x)
        return self.where[x]

    def getName(self, i):
        return None


def kaxis(eng):
    def getindex(e, o, a, k):
        w = o.fields['where']
        return e.getitem(w, a[0])
    eng.models[('KAxis', 'getIndex')] = getindex
    eng.models[('KAxis', 'getName')] = lambda e, o, a, k: None


def gen_keeps(rng):
    n = rng.randint(0, 4)
    w = {i: i for i in range(n)}
    w.update({'abcde'[i]: i for i in range(n) if rng.random() < .8})
    ids = rng.sample(list(w), rng.randint(0, len(w)))
    if rng.random() < .6:
        ids = [x for x in ids if isinstance(x, int)]
    return dict(axisObj=KAxis(w), keepList=ids)


contract('keep_index_values', PROPS, CH + 'getKeepIndexValues',
         dict(axisObj=Obj('KAxis', where=Dict(Val('int', 'str'), Int(0)),
                          _axis=Str(['point'])), keepList=KEEP),
         gen=gen_keeps, overrides=kaxis,
         raises={'KeyError': ('only', 'any(x not in axisObj.where for x in '
                              'keepList)'),
                 'InvalidArgumentValue': ('only', 'any(any(i != j and '
                                          'axisObj.where[keepList[i]] == '
                                          'axisObj.where[keepList[j]] for j '
                                          'in range(len(keepList))) for i in '
                                          'range(len(keepList)))')},
         ensures=[('one position for each value', 'len(result) == '
                   'len(keepList)'),
                  ('the position of the value', 'all(result[i] == '
                   'axisObj.where[keepList[i]] for i in '
                   'range(len(keepList)))'),
                  ('no position twice', 'all(all(i == j or result[i] != '
                   'result[j] for j in range(len(result))) for i in '
                   'range(len(result)))')],
         pool=[PoolItem('len(L) == k', L='list!'),
               PoolItem('all(keepList[j] in axisObj.where and L[j] == '
                        'axisObj.where[keepList[j]] for j in range(k))',
                        L='list!'),
               PoolItem('all(all(i == j or L[i] != L[j] for j in range(k)) '
                        'for i in range(k))', L='list!')])


def single(eng):
    """names are asked for or not, nothing is guessed (contract
    names_asked_for)"""
    from pyvc.values import HList
    eng.summaries['nimble._utility:isAllowedSingleElement'] = \
        lambda e, a, k: not isinstance(e.force(a[0]), HList)
    eng.summaries[CH + 'autoDetectNamesFromRaw'] = lambda e, a, k: \
        (a[0], a[1])


def gen_raw(rng):
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    return dict(rawData=[[rng.choice([1, 'a', 2.5, 'b', 0, 7])
                          for _ in range(m)] for _ in range(n)],
                copied=False)


for p, f in ((0, 0), (0, 1), (1, 0), (1, 1)):
    def run(eng, env, p=p, f=f):
        from pyvc.values import FuncVal
        mod, cls, node = eng.loader.target(CH + 'extractNamesFromRawList')
        return eng.callfunc(FuncVal(node, mod, None, None, node.name),
                            [env['rawData'], bool(p), bool(f),
                             env['copied']], {})

    def nat(env, p=p, f=f):
        import nimble.core._createHelpers as m
        return m.extractNamesFromRawList(env['rawData'], bool(p), bool(f),
                                         env['copied'])
    n = f'(len(rawData) - {f})'
    ens = [('the source stays', 'len(rawData) == len(old(rawData)) and '
            'all(len(rawData[i]) == len(old(rawData)[i]) and all(rawData[i]['
            'j] == old(rawData)[i][j] for j in range(len(rawData[i]))) for i '
            'in range(len(rawData)))'),
           ('a row of data for each row that is not names',
            f'len(result[0]) == {n}'),
           ('each value is at its position', f'all(len(result[0][i]) == len('
            f'rawData[i + {f}]) - {p} and all(result[0][i][j] == rawData[i + '
            f'{f}][j + {p}] for j in range(len(result[0][i]))) for i in '
            f'range({n}))'),
           ('point names are the first column', f'len(result[1]) == {n} and '
            f'all(result[1][i] == str(rawData[i + {f}][0]) for i in '
            f'range({n}))' if p else 'result[1] is None'),
           ('feature names are the first row', f'len(result[2]) == len('
            f'rawData[0]) - {p} and all(result[2][j] == str(rawData[0][j + '
            f'{p}]) for j in range(len(result[2])))' if f else
            'result[2] is None')]
    pool = []
    if p:
        pool = [PoolItem('all(len(L[i]) == len(old(rawData)[i]) - (1 if i < k '
                         'else 0) for i in range(len(old(rawData))))',
                         L='list!'),
                PoolItem('all(all(L[i][j] == old(rawData)[i][j + (1 if i < k '
                         'else 0)] for j in range(len(old(rawData)[i]) - (1 '
                         'if i < k else 0))) for i in '
                         'range(len(old(rawData))))', L='list!'),
                PoolItem(f'len(L) == (k - {f} if k > 0 else 0)', L='list!'),
                PoolItem(f'all(L[i] == str(old(rawData)[i + {f}][0]) for i in '
                         f'range(k - {f}))', L='list!')]
    if f:
        pool += [PoolItem(f'all(implies(j < k, L[j] == str(old(rawData)[0][j '
                          f'+ {p}])) for j in range(len(L)))', L='list!'),
                 PoolItem(f'all(implies(j >= k, L[j] == old(rawData)[0][j + '
                          f'{p}]) for j in range(len(L)))', L='list!'),
                 PoolItem(f'len(L) == len(old(rawData)[0]) - {p}', L='list!')]
    contract(f'names_from_raw_list_{p}{f}', 'C13',
             CH + 'extractNamesFromRawList',
             dict(rawData=List(List(Val('int', 'str', 'real'))),
                  copied=Const(False)), gen=gen_raw, overrides=single,
             prove=not (p and f), run=run, native=nat, ensures=ens, pool=pool,
             requires=['len(rawData) >= 1',
                       'all(len(r) >= 1 for r in rawData)'])

def isnum(eng):
    def f(e, a, k):
        from pyvc.ops import toz
        from pyvc.values import Builtin
        ts = tuple(Builtin(n, None) for n in ('int', 'float', 'bool'))
        return e.mkbool(toz(e.typetest(a[0], ts))) if not isinstance(
            a[0], tuple) else False
    eng.summaries[CH + 'isNum'] = f


ASKED = Fork(Const(True), Const(False), Const(None))
WORD = Val('none', 'int', 'str', 'real')
contract('names_asked_for', PROPS, CH + 'autoDetectNamesFromRaw',
         dict(pointNames=ASKED, featureNames=ASKED,
              firstValues=Opt(List(WORD)), secondValues=Opt(List(WORD))),
         overrides=isnum,
         ensures=[('nothing is guessed when it was said', 'result[0] is '
                   'pointNames and result[1] is featureNames')])
contract('names_guessed', PROPS, CH + 'autoDetectNamesFromRaw',
         dict(pointNames=Str(['automatic']), featureNames=Str(['automatic']),
              firstValues=List(WORD), secondValues=List(WORD)),
         overrides=isnum,
         requires=['len(firstValues) > 0', 'len(secondValues) > 0',
                   'pointNames == "automatic"', 'featureNames == "automatic"'],
         ensures=[('the first row is names only if it is text',
                   'implies(result[1], all(isinstance(x, str) for x in '
                   'firstValues))'),
                  ('and a number follows', 'implies(result[1], any('
                   'not isinstance(x, str) and x is not None for x in '
                   'secondValues))'),
                  ('the first column is names only if it is headed so',
                   'implies(result[0], result[1] and firstValues[0] == '
                   '"pointNames")')])
