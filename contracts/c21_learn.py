"""Splitting into training and testing sets, and what learning is given.

The objects are stand-ins: points and features of an object remember which
points (`idx`) of the original they hold, in what order, and what was taken
out of them; copying points and extracting features are the contracts of C03.
"""
from contracts._common import *

BASE = 'nimble.core.data.base:Base'
LH = 'nimble.core._learnHelpers:'
LEARN = 'nimble.core.learn:'


def refuse(name):
    import nimble.exceptions
    raise getattr(nimble.exceptions, name)('stand-in')


def nexc(eng, name):
    from pyvc.values import PyExc
    return PyExc(eng.loader.module('nimble.exceptions').defs[name], (), None)


class Stand:
    __verif_stub__ = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f'{type(self).__name__}({self.__dict__})'


class KPts(Stand):
    def __len__(self):
        return self.n

    def copy(self, order, useLog=None):
        if any(not 0 <= i < self.n for i in order):
            raise IndexError
        return kchild(order, self)


class KFts(Stand):
    def _namesCreated(self):
        return self.known is not None

    def getNames(self):
        return list(self.listed)

    def hasName(self, name):
        return name in self.known

    def delete(self, names, useLog=None):
        self.deleted = list(names)

    def extract(self, labels, useLog=None):
        r = kchild(self.idx, self)
        r.features.taken = labels
        self.taken = labels
        return r


def kchild(idx, parent):
    known = None
    return Stand(points=KPts(n=len(idx), idx=list(idx), src=parent.src),
                 features=KFts(idx=list(idx), src=parent.src, taken=None,
                               deleted=[], known=known), name=None)


class KObj(Obj):
    def native(self, vals):
        return {'KPts': KPts, 'KFts': KFts, 'KLen': KLen}[self.cls](**vals)


class Checker(T):
    """_validateEqualNames: refuses labels that do not fit"""

    def sym(self, eng, name):
        from pyvc.values import Builtin

        def chk(a, k):
            if not eng.branch(a[-1].fields['fits']):
                raise nexc(eng, 'InvalidArgumentValue')
        return Builtin('_validateEqualNames', chk)

    def gen(self, rng):
        return chk

    def conc(self, md, v):
        return chk


def chk(*a):
    if not a[-1].fits:
        refuse('InvalidArgumentValue')


def sym_split(eng):
    from pyvc.values import HObj
    import z3

    def child(e, idx, parent):
        r, p, f = (e.new(HObj(x)) for x in ('KBase', 'KPts', 'KFts'))
        for x in (p, f):
            x.fields.update(idx=e.snapshot(idx), src=parent.fields['src'])
        f.fields.update(taken=None, deleted=e.b_list([], {}))
        r.fields.update(points=p, features=f, name=None)
        return r

    def copy(e, o, a, k):
        n, arr = e.larr(a[0])
        i = z3.Int('i!pick')
        x = z3.Select(arr, i)
        if not e.decide(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n),
                z3.And(0 <= x, x < e.zi(o.fields['n'])))),):
            raise e.exc('IndexError')
        e.assumptions.add('points.copy takes the points asked for, '
                          'features.extract keeps the points')
        return child(e, a[0], o)

    def extract(e, o, a, k):
        r = child(e, o.fields['idx'], o)
        e.setattr(o, 'taken', a[0])
        e.setattr(r.fields['features'], 'taken', a[0])
        return r

    def created(e, o, a, k):
        c = e.is_(o.fields['known'], None)
        return (not c) if isinstance(c, bool) else e.mkbool(z3.Not(c))
    def mk(e, c):
        return c if isinstance(c, bool) else e.mkbool(c)
    eng.models.update({
        ('KPts', 'copy'): copy, ('KFts', 'extract'): extract,
        ('KFts', 'delete'): lambda e, o, a, k: e.setattr(
            o, 'deleted', e.snapshot(a[0])),
        ('KPts', '__len__'): lambda e, o, a, k: o.fields['n'],
        ('KFts', '_namesCreated'): created,
        ('KFts', 'getNames'): lambda e, o, a, k: e.snapshot(
            o.fields['listed']),
        ('KFts', 'hasName'): lambda e, o, a, k: mk(e, e.contains(
            o.fields['known'], a[0]))})


SPLIT = [
    ('as many as there are', 'len(result[0].points.idx) + len(result[TX].'
     'points.idx) == self.points.n'),
    ('points that exist', 'all(0 <= result[s].points.idx[i] and '
     'result[s].points.idx[i] < self.points.n for s in [0, TX] for i in '
     'range(len(result[s].points.idx)))'),
    ('none twice', 'all(implies(i != j, result[s].points.idx[i] != '
     'result[s].points.idx[j]) for s in [0, TX] for i in range(len(result['
     's].points.idx)) for j in range(len(result[s].points.idx)))'),
    ('none in both', 'all(result[0].points.idx[i] != result[TX].points.idx['
     'j] for i in range(len(result[0].points.idx)) for j in range(len('
     'result[TX].points.idx)))'),
    ('in order unless random', 'implies(not randomOrder, all(result[0].'
     'points.idx[i] == i for i in range(len(result[0].points.idx))) and '
     'all(result[TX].points.idx[i] == len(result[0].points.idx) + i for i '
     'in range(len(result[TX].points.idx))))'),
    ('the fraction asked for', '2 * (len(result[TX].points.idx) - '
     'testFraction * self.points.n) <= 1 and 2 * (len(result[TX].points.idx'
     ') - testFraction * self.points.n) >= -1'),
    ('of the object', 'result[0].points.src == "X" and result[TX].points.'
     'src == "X"'),
    ('which stays as it was', 'self.points.n == old(self.points.n) and '
     'self.features.taken is None and len(self.features.deleted) == 0'),
]
PAIRED = [
    ('labels of the same points', 'all(len(result[s].points.idx) == len('
     'result[s + 1 if s == 0 else s + 1].points.idx) and all(result[s].'
     'points.idx[i] == result[s + 1].points.idx[i] for i in range(len('
     'result[s].points.idx))) for s in [0, 2])'),
]


def ids(es, tx):
    return [(a, b.replace('TX', str(tx))) for a, b in es]


def table(src, listed=False):
    f = dict(src=Const(src), known=Opt(Set(Str())), taken=Const(None),
             deleted=Const([]))
    if listed:
        f['listed'] = List(Val('none', 'str'))
    return dict(points=KObj('KPts', n=Int(0), src=Const(src)),
                features=KObj('KFts', **f), _dims=Items(Int(0), Int(0)),
                name=Opt(Str()), _validateEqualNames=Checker())


def nat_split(env):
    import inspect
    from nimble.core.data import Base
    f = inspect.unwrap(Base.trainAndTestSets)
    return f(env['self'], env['testFraction'], env['labels'],
             env['randomOrder'])


def gen_split(labels):
    ST = Obj(BASE, fits=Bool(), **table('X', True))

    def gen(rng):
        n = rng.randint(0, 7)

        def obj(src, m):
            known = rng.choice([None, {'a', 'b'}, {'b', 'c'}])
            return ST.native(dict(
                points=KPts(n=m, src=src), features=KFts(
                    src=src, known=known, taken=None, deleted=[],
                    listed=sorted(known or []) + [None]),
                _dims=[m, 2], name=rng.choice([None, 'nm']),
                _validateEqualNames=chk, fits=rng.random() < .8))
        return dict(self=obj('X', n), testFraction=rng.choice(
            [0., .1, .25, .5, .7, 1., 1.5, -.5, rng.random()]),
            labels=None if labels is None else 'lab' if labels == 'id' else
            obj('Y', rng.choice([n, n, n, n + 1])),
            randomOrder=rng.random() < .5)
    return gen


FRAC = 'not (0 <= testFraction and testFraction <= 1)'
for lab, ty, raises, ens in (
        ('none', Const(None), {'InvalidArgumentValue': FRAC},
         ids(SPLIT, 1)),
        ('id', Fork(Int(), Str(), List(Int())), {'InvalidArgumentValue': FRAC},
         ids(SPLIT, 2) + PAIRED + [
             ('the labels asked for', 'all(result[s].features.taken == '
              'labels and result[s].points.src == "X" for s in '
              '[0, 1, 2, 3])')]),
        ('object', Obj(BASE, fits=Bool(), **table('Y', True)),
         {'InvalidArgumentValue': FRAC + ' or labels.points.n != '
          'self.points.n or not labels.fits'},
         ids(SPLIT, 2) + PAIRED + [
             ('of the labels', 'result[1].points.src == "Y" and '
              'result[3].points.src == "Y"'),
             ('labels are not left in the data', 'all(implies(self.features.'
              'known is not None and labels.features.known is not None and '
              'labels.features.listed[i] is not None and labels.features.'
              'listed[i] in self.features.known, labels.features.listed[i] '
              'in result[s].features.deleted) for s in [0, 2] for i in '
              'range(len(labels.features.listed)))'),
             ('nothing else is taken out', 'all(any(labels.features.listed'
              '[j] == result[s].features.deleted[i] for j in range(len('
              'labels.features.listed))) and self.features.known is not None '
              'and result[s].features.deleted[i] in self.features.known '
              'for s in [0, 2] for i in range(len(result[s].features.'
              'deleted)))'),
             ('the labels object stays', 'len(labels.features.deleted) == 0 '
              'and labels.features.taken is None')])):
    contract('split_' + lab, 'C21', BASE + '.trainAndTestSets',
             dict(testFraction=Real(), labels=ty, randomOrder=Bool()),
             selfp=Obj(BASE, **table('X')), overrides=sym_split,
             native=nat_split, gen=gen_split(None if lab == 'none' else lab),
             raises=raises, ensures=ens)


# ---------------------------------------------------- arguments of learning
def sized(**kw):
    return Obj(BASE, _dims=Items(Int(0), Int(0)), points=KObj(
        'KPts', n=Int(0)), features=KObj('KLen', n=Int(0)), **kw)


class KLen(Stand):
    def __len__(self):
        return self.n


def sym_sized(eng):
    for c in ('KPts', 'KLen'):
        eng.models[(c, '__len__')] = lambda e, o, a, k: o.fields['n']


def none_or_obj(kind):
    return {'none': Const(None), 'object': sized()}[kind]


BAD = Fork(List(Int()), Real(), Tup(Int(), Int()))
IDS = Fork(Int(), Str())
for which in ('Train', 'Test'):
    x, y = (f'{which.lower()}{v}' for v in 'XY')
    for kx, ky, cond in (
            ('object', 'object', {'InvalidArgumentValueCombination':
                                  f'{y}.points.n != {x}.points.n'}),
            ('object', 'id', {}), ('object', 'none', {}),
            ('object', 'other', {'InvalidArgumentType': 'True'}),
            ('other', 'id', {'InvalidArgumentType': 'True'})) + (
            (('none', 'none', {}), ('none', 'id', {})) if which == 'Test'
            else ()):
        ts = dict(none=Const(None), object=sized(), id=IDS, other=BAD)
        contract(f'valid_{which.lower()}_{kx}_{ky}', ['C21', 'C22'],
                 LH + f'_valid{which}Data', {x: ts[kx], y: ts[ky]},
                 overrides=sym_sized, raises=cond,
                 ensures=[('accepted', 'result is None')])

MODES = ['bestScore', 'allScores', 'bestscore', 'ALLSCORES', 'other']
STRATS = ['default', 'OneVsAll', 'onevsone', 'other']
contract('valid_score_mode', ['C20', 'C22'], LH + '_validScoreMode',
         dict(scoreMode=Opt(Fork(*map(Const, MODES)))),
         raises={'InvalidArgumentValue': 'scoreMode == "other"'}, ensures=[])
contract('valid_strategy', ['C20', 'C22'], LH + '_validMultiClassStrategy',
         dict(multiClassStrategy=Opt(Fork(*map(Const, STRATS)))),
         raises={'InvalidArgumentValue': 'multiClassStrategy == "other"'},
         ensures=[])
contract('valid_arguments', 'C22', LH + '_validArguments',
         dict(arguments=Fork(Const(None), Dict(Str(), Int()))),
         ensures=[('accepted', 'result is None')])
contract('valid_arguments_other', 'C22', LH + '_validArguments',
         dict(arguments=Fork(List(Int()), Int(), Str())),
         raises={'InvalidArgumentType': 'True'}, ensures=[])

SM = dict(scoreMode=Opt(Str()), multiClassStrategy=Opt(Str()))
FLAGS = '(scoreMode is not None or multiClassStrategy is not None)'
for nm, xt, yt, many in (
        ('object', sized(), sized(), 'Y.features.n > 1'),
        ('unlabelled', sized(), Const(None), 'X.features.n > 1'),
        ('ids', sized(), List(Int()), 'len(Y) > 1'),
        ('id', sized(), Fork(Int(), Str()), 'False')):
    contract('output_flags_' + nm, ['C20', 'C22'],
             LH + '_2dOutputFlagCheck', dict(X=xt, Y=yt, **SM),
             overrides=sym_sized,
             raises={'InvalidArgumentValueCombination':
                     f'{many} and {FLAGS}'}, ensures=[])


# ------------------------------------------------------------------ metrics
def sym_metric(eng):
    """the performance function is any function; features.copy gives the
    features asked for"""
    from pyvc.values import HObj

    def copy(e, o, a, k):
        r = e.new(HObj('KCopy'))
        r.fields.update(src=o, ids=a[0])
        return r
    eng.models[('KFts', 'copy')] = copy


class Perf(T):
    def sym(self, eng, name):
        from pyvc.values import Builtin, HObj

        def perf(a, k):
            r = eng.new(HObj('Pair'))
            r.fields.update(known=a[0], predicted=a[1])
            return r
        return Builtin('performanceFunction', perf)

    def gen(self, rng):
        return pair

    def conc(self, md, v):
        return pair


def pair(known, predicted):
    return Stand(known=known, predicted=predicted)


class MFts(Stand):
    def copy(self, ids, useLog=None):
        return Stand(src=self, ids=ids)


class MObj(Obj):
    def native(self, vals):
        return MFts(**vals)


for nm, ty, want in (
        ('none', Const(None), 'result.known is None'),
        ('object', Obj(BASE, tag=Int()), 'result.known is dependentVar'),
        ('id', Fork(Int(), Str(), List(Int())),
         'result.known.src is knownData.features and result.known.ids == '
         'dependentVar')):
    contract('compute_metrics_' + nm, ['C21', 'C18'], LH + 'computeMetrics',
             dict(dependentVar=ty, knownData=Obj(BASE, features=MObj(
                 'KFts', tag=Int())), predictedData=Obj(BASE, tag=Int()),
                 performanceFunction=Perf()), overrides=sym_metric,
             ensures=[('known labels first', want),
                      ('then the predictions',
                       'result.predicted is predictedData')])
