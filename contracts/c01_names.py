from contracts._common import *


def g(**f):
    def gen(rng):
        d = dict(self=gen_axis(rng))
        for k, fn in f.items():
            d[k] = fn(rng, d)
        return d
    return gen


contract('axis_setAllDefault', 'C01', AXC + '._setAllDefault', {},
         selfp=axis(), gen=g(),
         ensures=['bij(self.names, self.namesInverse, axlen(self))',
                  'len(self.names) == 0'])

contract('axis_getNames', 'C01', AXC + '._getNames', {},
         selfp=axis(), gen=g(), requires=['wfaxis(self)'],
         ensures=['wfaxis(self)', 'len(result) == axlen(self)',
                  'all(result[i] == (None if old(self.names) is None else '
                  'old(self.namesInverse)[i]) for i in range(len(result)))',
                  'result is not self.namesInverse'])

contract('axis_getName', 'C01', AXC + '._getName', dict(index=Int(0)),
         selfp=axis(), gen=g(index=lambda r, d: r.randint(0, 3)),
         requires=['wfaxis(self)', 'index < axlen(self)'],
         ensures=['wfaxis(self)',
                  'result == (None if old(self.names) is None else '
                  'old(self.namesInverse)[index])'])

contract('axis_getNamesNoGeneration', 'C01', AXC + '._getNamesNoGeneration',
         {}, selfp=axis(), gen=g(), requires=['wfaxis(self)'],
         ensures=['implies(self.names is None, result is None)',
                  'implies(self.names is not None, '
                  'result == self.namesInverse)'])


def a_name(rng, d):
    return rng.choice(list(d['self']['names'] or []) + ['q', 'zz', 'a'])


contract('axis_getIndexByName', ['C01', 'C02'], AXC + '._getIndexByName',
         dict(name=Str()), selfp=axis(), gen=g(name=a_name),
         requires=['self.names is not None'], returns=Int(),
         raises={'KeyError': 'name not in self.names'},
         pool=[PoolItem('isinstance(S, str) or Z == 0', S='val', Z='val'),
               PoolItem('S is not None or Z == 0', S='val', Z='val')],
         ensures=['result == self.names[name]'])

contract('axis_getIndexByName_unnamed', ['C01', 'C02'],
         AXC + '._getIndexByName', dict(name=Str()),
         selfp=axis(names=Const(None), namesInverse=Const(None)),
         gen=lambda rng: dict(self=dict(gen_axis(rng), names=None,
                                        namesInverse=None)),
         raises={'KeyError': 'True'}, exc_ensures=['wfaxis(self)'])

contract('axis_getIndex', ['C01', 'C02'], AXC + '._getIndex',
         dict(identifier=Val('int', 'str', 'none', 'real'),
              allowFloats=Bool()),
         selfp=axis(names=Dict(Str(), Int())),
         gen=lambda rng: gen_getindex(rng), uses=['axis_getIndexByName'],
         requires=['wfaxis(self)'], returns=Int(),
         raises={
             'IndexError': 'axlen(self) == 0 or (isinstance(identifier, int) '
             'and resolves(self.names, axlen(self), identifier) == -1) or '
             '(isinstance(identifier, float) and allowFloats and '
             '(identifier < -axlen(self) or identifier >= axlen(self)))',
             'KeyError': '(isinstance(identifier, str) and identifier not in '
             'self.names) or (isinstance(identifier, float) and allowFloats '
             'and identifier % 1 != 0)',
             'InvalidArgumentType': 'identifier is None or '
             '(isinstance(identifier, float) and not allowFloats)'},
         ensures=['implies(isinstance(identifier, (int, str)), result == '
                  'resolves(self.names, axlen(self), identifier))',
                  'implies(isinstance(identifier, float), '
                  'result == (identifier if identifier >= 0 else '
                  'identifier + axlen(self)))',
                  '0 <= result and result < axlen(self)',
                  'wfaxis(self)'])


def gen_getindex(rng):
    d = dict(self=gen_axis(rng))
    s = d['self']
    n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
    if s['names'] is None:
        s['names'], s['namesInverse'] = {}, [None] * n
    d['identifier'] = rng.choice(list(s['names']) + ['zz', None, 1.0, 0.5]
                                 + list(range(-n - 1, n + 2)))
    d['allowFloats'] = rng.random() < .5
    return d


def assign_list(rng, d):
    n = d['self']['_base']['_dims'][0 if d['self']['_isPoint'] else 1]
    m = n if rng.random() < .8 else rng.randint(0, 4)
    return [rng.choice([None, 'a', 'b', 'c', 'd', 'e', 'f'])
            for _ in range(m)]


SETPOOL = [
    PoolItem('all(implies(item(j)[1] is not None, item(j)[1] in D and '
             'D[item(j)[1]] == j) for j in range(k))', D='dict'),
    PoolItem('all(0 <= D[x] and D[x] < k and item(D[x])[1] == x for x in D)',
             D='dict'),
    PoolItem('all(x is not None for x in D)', D='dict'),
    PoolItem('all(0 <= item(j)[1] and item(j)[1] < axlen(self) '
             'for j in range(k))'),
    PoolItem('all(L[item(j)[1]] == item(j)[0] for j in range(k))', L='list'),
    PoolItem('all(L[i] is None or any(item(j)[0] == L[i] and '
             'item(j)[1] == i for j in range(k)) for i in range(len(L)))',
             L='list'),
]

contract('axis_setNames_list', 'C01', AXC + '._setNames',
         dict(assignments=List(Val('none', 'str'))),
         selfp=axis(), gen=g(assignments=assign_list),
         requires=['wfaxis(self)'],
         raises={'InvalidArgumentValue':
                 'len(assignments) != axlen(self) or any(any(i != j and '
                 'assignments[i] is not None and '
                 'assignments[i] == assignments[j] for j in '
                 'range(len(assignments))) for i in range(len(assignments)))'},
         ensures=['self.names is not None and self.namesInverse is not None',
                  'wfaxis(self)',
                  'all(self.namesInverse[i] == assignments[i] '
                  'for i in range(axlen(self)))'],
         exc_ensures=['self.names == old(self.names) and self.namesInverse '
                      '== old(self.namesInverse)'], pool=SETPOOL,
         modifies={'self.names': Dict(Str(), Int()),
                   'self.namesInverse': List(Val('none', 'str'))})


def assign_dict(rng, d):
    n = d['self']['_base']['_dims'][0 if d['self']['_isPoint'] else 1]
    pool = ['a', 'b', 'c', 'd', 'e', 'f']
    rng.shuffle(pool)
    m = n if rng.random() < .8 else rng.randint(0, 4)
    ids = list(range(m))
    rng.shuffle(ids)
    if rng.random() < .3 and ids:
        ids[rng.randrange(len(ids))] = rng.randint(-1, n + 1)
    return {pool[i]: ids[i] for i in range(m)}


contract('axis_setNames_dict', 'C01', AXC + '._setNames',
         dict(assignments=Dict(Str(), Int())),
         selfp=axis(), gen=g(assignments=assign_dict),
         requires=['wfaxis(self)'],
         raises={'InvalidArgumentValue':
                 'len(assignments) != axlen(self) or any(assignments[x] < 0 '
                 'or assignments[x] >= axlen(self) for x in assignments) or '
                 'any(any(x != y and assignments[x] == assignments[y] '
                 'for y in assignments) for x in assignments)'},
         ensures=['wfaxis(self)', 'self.names == assignments',
                  'self.names is not assignments'],
         exc_ensures=['self.names == old(self.names) and self.namesInverse '
                      '== old(self.namesInverse)'], pool=SETPOOL)

contract('axis_setNames_none', 'C01', AXC + '._setNames',
         dict(assignments=Const(None)), selfp=axis(), gen=g(),
         requires=['wfaxis(self)'],
         ensures=['self.names is None and self.namesInverse is None'])


def some_ids(rng, d):
    s = d['self']
    n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
    names = list(s['names'] or [])
    out = []
    for _ in range(rng.randint(0, 3)):
        if names and rng.random() < .6:
            out.append(rng.choice(names + ['zz']))
        else:
            out.append(rng.randint(-n - 1, n))
    return out


def new_names(rng, d):
    m = len(d['oldIdentifiers'])
    if rng.random() < .2:
        m = rng.randint(0, 3)
    return [rng.choice([None, 'a', 'b', 'x', 'y', 'z', 'w'])
            for _ in range(m)]


def gen_partial(rng):
    d = dict(self=gen_axis(rng))
    d['oldIdentifiers'] = some_ids(rng, d)
    d['assignments'] = new_names(rng, d)
    return d


contract('axis_setNames_partial', 'C01', AXC + '._setNames',
         dict(assignments=List(Val('none', 'str')),
              oldIdentifiers=List(Val('int', 'str'))),
         selfp=axis(), gen=gen_partial,
         requires=['wfaxis(self)'],
         raises={'InvalidArgumentValue': None, 'ImproperObjectAction':
                 'axlen(self) == 0', 'IndexError': None, 'KeyError': None},
         ensures=['wfaxis(self)',
                  'all(implies(all(resolves(old(self.names), axlen(self), '
                  'oldIdentifiers[j]) != i for j in '
                  'range(len(oldIdentifiers))), self.namesInverse[i] == '
                  '(None if old(self.names) is None else '
                  'old(self.namesInverse)[i])) for i in range(axlen(self)))',
                  'all(self.namesInverse[resolves(old(self.names), '
                  'axlen(self), oldIdentifiers[j])] == assignments[j] '
                  'for j in range(len(oldIdentifiers)))'],
         exc_ensures=['wfaxis(self)',
                      'implies(old(self.names) is not None, '
                      'self.names == old(self.names) and '
                      'self.namesInverse == old(self.namesInverse))'],
         pool=SETPOOL, uses=['axis_getIndexByName'], prove=False,
         note='bounded only: the paths of a list of old identifiers exceed '
         'the budget of the verifier')
