"""Hyperparameter tuning: what is recorded and which trial is the best."""
from contracts._common import *

TUNE = 'nimble.core.tune:'
UTIL = 'nimble._utility:'


def gen_merge(rng):
    def d():
        return None if rng.random() < .2 else {
            rng.choice('abcd'): rng.choice([1, 2]) for _ in
            range(rng.randint(0, 4))}
    return dict(argumentsParam=d(), kwargsParam=d())


A = '(argumentsParam is not None and x in argumentsParam)'
contract('merge_arguments', ['C15', 'C20', 'C21'], UTIL + 'mergeArguments',
         dict(argumentsParam=Opt(Dict(Str(), Opq())),
              kwargsParam=Opt(Dict(Str(), Opq()))), gen=gen_merge,
         raises={'InvalidArgumentValueCombination':
                 'argumentsParam is not None and kwargsParam is not None and '
                 'any(x in kwargsParam and kwargsParam[x] != '
                 'argumentsParam[x] for x in argumentsParam)'},
         ensures=[
             ('keys of both', 'implies(argumentsParam is not None, all(x in '
              'result for x in argumentsParam)) and implies(kwargsParam is '
              'not None, all(x in result for x in kwargsParam)) and all(('
              'argumentsParam is not None and x in argumentsParam) or ('
              'kwargsParam is not None and x in kwargsParam) for x in '
              'result)'),
             ('their values', 'implies(argumentsParam is not None, '
              'all(result[x] == argumentsParam[x] for x in argumentsParam)) '
              'and implies(kwargsParam is not None, all(result[x] == '
              'kwargsParam[x] for x in kwargsParam))'),
             ('a new dictionary', 'result is not argumentsParam and result '
              'is not kwargsParam'),
             ('the arguments are untouched', 'argumentsParam == '
              'old(argumentsParam) and kwargsParam == old(kwargsParam)')],
         pool=[PoolItem('all(x in D for x in M)', D='dict!', M='dict'),
               PoolItem('all(implies(x in D, D[x] == M[x]) for x in M)',
                        D='dict!', M='dict'),
               PoolItem('all(item(j) in D for j in range(k))', D='dict!'),
               PoolItem('all(D[item(j)] == M[item(j)] for j in range(k))',
                        D='dict!', M='dict'),
               PoolItem('all(x in M or any(item(j) == x for j in range(k))'
                        ' for x in D)', D='dict!', M='dict'),
               PoolItem('all(any(item(j) == x for j in range(k))'
                        ' for x in D)', D='dict!'),
               PoolItem('all(x in M for x in D)', D='dict!', M='dict')])


def sym_validator(eng):
    """training and scoring are outside: any score; merging the arguments is
    under contract (merge_arguments)"""
    def val(e, a, k):
        e.assumptions.add('a trial returns a number (NaN scores are not '
                          'considered)')
        return e.freshv('performance', 'real')
    eng.summaries[TUNE + 'Validator._validate'] = val
    eng.summaries[UTIL + 'mergeArguments'] = \
        lambda e, a, k: e.freshv('merged', 'opq')


def better(x, y):
    return f'(({x} > {y}) if self.optimal == "max" else ({x} < {y}))'


def gen_validator(rng):
    import operator
    opt = rng.choice(['max', 'min'])
    res = [float(rng.randint(0, 3)) for _ in range(rng.randint(0, 4))]
    args = [{'k': i} for i in range(len(res))]
    best = None
    for r, a in zip(res, args):
        if best is None or (r > best[0] if opt == 'max' else r < best[0]):
            best = (r, a)
    nxt = float(rng.randint(0, 3))
    o = dict(_results=res, _arguments=args, _best=best, optimal=opt,
             _isBest=operator.gt if opt == 'max' else operator.lt,
             _validate=lambda a: nxt)
    return dict(self=o, arguments=rng.choice([None, {'k': 9}]),
                record=rng.random() < .7)


def ext(name):
    class E(T):
        def sym(self, eng, nm):
            from pyvc.values import ExtRef
            return ExtRef(name)
    return E()


VAL = ['len(self._results) == len(self._arguments)',
       'iff(self._best is None, len(self._results) == 0)',
       'implies(self._best is not None, any(self._results[i] == '
       'self._best[0] and self._arguments[i] == self._best[1] for i in '
       'range(len(self._results))))',
       'implies(self._best is not None, all(not '
       + better('self._results[i]', 'self._best[0]') +
       ' for i in range(len(self._results))))']
for opt in ('max', 'min'):
    contract('validator_validate_' + opt, 'C15', TUNE + 'Validator.validate',
             dict(arguments=Opt(Opq()), record=Bool()),
             selfp=Obj(TUNE + 'Validator', _results=List(Real()),
                       _arguments=List(Opq()),
                       _best=Opt(Tup(Real(), Opq())), optimal=Const(opt),
                       _isBest=ext('operator.gt' if opt == 'max' else
                                   'operator.lt')),
             gen=lambda rng, opt=opt: gen_v(rng, opt),
             overrides=sym_validator, requires=VAL,
             ensures=[(f'the best is the best recorded ({i})', v)
                      for i, v in enumerate(VAL)] + [
                 ('recorded at the end, with its arguments',
                  'implies(record, len(self._results) == '
                  'len(old(self._results)) + 1 and '
                  'self._results[len(old(self._results))] == result)'),
                 ('only when asked', 'implies(not record, self._results == '
                  'old(self._results) and self._best == old(self._best))'),
                 ('earlier records stay', 'all(self._results[i] == '
                  'old(self._results)[i] and self._arguments[i] == '
                  'old(self._arguments)[i] for i in '
                  'range(len(old(self._results))))')])


def gen_v(rng, opt):
    while True:
        g = gen_validator(rng)
        if g['self']['optimal'] == opt:
            return g


class Rec:
    """a validator that records what it is asked to evaluate"""

    def __init__(self, tried):
        self.tried = tried

    def validate(self, arguments):
        self.tried.append(arguments)
        return 0.

    def __deepcopy__(self, memo):
        return Rec(list(self.tried))


def sym_tried(eng):
    eng.models[('Tried', 'validate')] = lambda e, o, a, k: (
        e.list_append(o.fields['tried'], a[0]),
        e.freshv('performance', 'real'))[1]


def gen_brute(rng):
    n = rng.randint(1, 4)
    return dict(self=dict(_index=rng.randint(0, n), _numCombinations=n,
                          _combinationsList=[{'k': i} for i in range(n)],
                          validator=Rec([])))


contract('brute_next', 'C15', TUNE + 'BruteForce.__next__', {},
         selfp=Obj(TUNE + 'BruteForce', _index=Int(0), _numCombinations=Int(
             1), _combinationsList=List(Opq()),
             validator=Obj('Tried', tried=List(Opq()))),
         overrides=sym_tried, gen=gen_brute,
         requires=['self._numCombinations == len(self._combinationsList)',
                   'self._index <= self._numCombinations'],
         raises={'StopIteration': 'old(self._index) >= self._numCombinations'},
         exc_ensures=[('nothing is evaluated after the last',
                       'len(self.validator.tried) == '
                       'len(old(self.validator.tried))')],
         ensures=[
             ('the next combination is the one returned', 'result == '
              'self._combinationsList[old(self._index)]'),
             ('and the one evaluated', 'len(self.validator.tried) == '
              'len(old(self.validator.tried)) + 1 and self.validator.tried['
              'len(old(self.validator.tried))] == result'),
             ('each in turn', 'self._index == old(self._index) + 1')])


# --------------------------------------------------------- holdout validation
LEARNER = {'args': Opq(), 'seed': Int(), 'x': Opq(), 'y': Opq()}


def sym_holdout(eng):
    """training and testing are outside: a learner is known by what it was
    trained with, a test gives any score and notes the learner tested.
    Training again changes the learner or makes one with the values the
    earlier arguments had"""
    from pyvc.values import HObj

    def arg(a, k, i, name, default=None):
        return a[i] if len(a) > i else k.get(name, default)

    def train(e, a, k):
        o = e.new(HObj('HLearner'))
        seed = arg(a, k, 5, 'randomSeed')
        o.fields.update(
            x=arg(a, k, 1, 'trainX'), y=arg(a, k, 2, 'trainY'),
            args=arg(a, k, 3, 'arguments'),
            seed=e.freshv('any seed', 'int') if seed is None else seed)
        return o
    eng.summaries['nimble.core.learn:train'] = train

    def retrain(e, o, a, k):
        e.assumptions.add('retrain keeps the values of earlier arguments')
        seed = arg(a, k, 3, 'randomSeed')
        e.setattr(o, 'args', e.freshv('arguments and earlier ones', 'opq'))
        e.setattr(o, 'seed', e.freshv('any seed', 'int')
                  if seed is None else seed)
    eng.models[('HLearner', 'retrain')] = retrain

    def test(e, o, a, k):
        e.specenv['tested'] = o
        e.specenv['scored'] = arg(a, k, 0, 'performanceFunction')
        e.specenv['testX'] = arg(a, k, 1, 'testX')
        e.specenv['testY'] = arg(a, k, 2, 'testY')
        return e.freshv('performance', 'real')
    eng.models[('HLearner', 'test')] = test
    eng.summaries['copy:copy'] = eng.summaries['copy.copy'] = \
        lambda e, a, k: copied(e, a[0])
    eng.summaries[UTIL + 'mergeArguments'] = \
        lambda e, a, k: e.freshv('merged', 'opq')

    def copied(e, o):
        r = e.new(HObj(o.cls))
        r.fields.update(o.fields)
        return r


class HLearner:
    """stand-in for a trained learner"""
    __verif_stub__ = True

    def __init__(self, args, seed, x, y, rec):
        self.args, self.seed, self.x, self.y = args, seed, x, y
        self.rec = rec

    def retrain(self, x, y, arguments=None, randomSeed=None, useLog=None):
        self.args = {**self.args, **arguments}
        self.seed = -1 if randomSeed is None else randomSeed

    def test(self, f, x, y, useLog=None):
        self.rec.update(tested=self, scored=f, testX=x, testY=y)
        return self.rec['score']


HOLD = {'X': Opq(), 'Y': Opq(), 'validateX': Opq(), 'validateY': Opq(),
        'learnerName': Str(), 'randomSeed': Int(),
        'performanceFunction': Opq(), '_incremental': Const(False),
        '_lastArguments': Opt(Opq()), '_trainedLearnerBase': Opt(Opq())}


def gen_hold(rng):
    seed = rng.randint(1, 5)
    d = lambda: {x: rng.randint(0, 1) for x in  # noqa: E731
                 rng.sample('ab', rng.randint(0, 2))}
    rec = {'score': float(rng.randint(0, 3))}
    X, Y = [rng.randint(0, 9)], [rng.randint(0, 9)]
    tl = None if rng.random() < .3 else HLearner(d(), seed, X, Y, rec)
    o = dict(X=X, Y=Y, validateX=[1], validateY=[2], learnerName='L',
             randomSeed=seed, performanceFunction='f', _incremental=False,
             _trainedLearner=tl, _trainedLearnerBase=tl, _lastArguments={}
             if tl is None else None if rng.random() < .3 else dict(tl.args))
    return dict(self=o, arguments=d(), rec=rec)


def native_hold(env):
    """the function with the training replaced"""
    import nimble
    from nimble.core import tune
    o = env['self']
    rec = env.pop('rec', {'score': 0.})

    def train(name, x, y=None, arguments=None, multiClassStrategy=None,
              randomSeed=None, tuning=None, useLog=None):
        return HLearner(arguments, -1 if randomSeed is None else randomSeed,
                        x, y, rec)
    keep = nimble.train
    nimble.train = train
    try:
        r = tune.HoldoutData._validate(o, env['arguments'])
    finally:
        nimble.train = keep
    env.update({k: v for k, v in rec.items() if k != 'score'})
    return r


HINV = ('implies(self._trainedLearner is not None, (self._lastArguments is '
        'None or self._trainedLearner.args == self._lastArguments) and '
        'self._trainedLearner.seed == self.randomSeed and '
        'self._trainedLearner.x == self.X and '
        'self._trainedLearner.y == self.Y)')
contract('holdout_trains', ['C15', 'C16'], TUNE + 'HoldoutData._validate',
         dict(arguments=Opq()),
         selfp=Obj(TUNE + 'HoldoutData', _trainedLearner=Opt(Obj(
             'HLearner', **LEARNER)), **HOLD),
         gen=gen_hold, overrides=sym_holdout, native=native_hold,
         requires=[HINV],
         ensures=[
             ('the learner scored was trained with these arguments',
              'tested.args == arguments'),
             ('on the training data', 'tested.x == self.X and '
              'tested.y == self.Y'),
             ('with the seed of the validator',
              'tested.seed == self.randomSeed'),
             ('scored on the validation data', 'testX == self.validateX and '
              'testY == self.validateY and scored == '
              'self.performanceFunction'),
             ('and kept', 'tested is self._trainedLearner'),
             ('ready for the next', HINV)])


def sym_hvalidate(eng):
    """training, scoring and merging arguments are under contract
    (holdout_trains, merge_arguments): the learner is trained with exactly
    the arguments validated"""
    from pyvc.values import HObj

    def val(e, a, k):
        e.assumptions.add('a trial returns a number (NaN scores are not '
                          'considered)')
        o = e.new(HObj('HLearner'))
        o.fields['args'] = a[1]
        e.setattr(a[0], '_trainedLearner', o)
        return e.freshv('performance', 'real')
    eng.summaries[TUNE + 'HoldoutData._validate'] = val

    def copied(e, a, k):
        r = e.new(HObj(a[0].cls))
        r.fields.update(a[0].fields)
        return r
    eng.summaries['copy:copy'] = eng.summaries['copy.copy'] = copied
    eng.summaries[UTIL + 'mergeArguments'] = \
        lambda e, a, k: e.freshv('merged', 'opq')


def native_hvalidate(env):
    from nimble.core import tune
    o = env['self']
    o._validate = lambda a: (setattr(o, '_trainedLearner', HLearner(
        a, 0, 0, 0, {})), o.next)[1]
    return tune.HoldoutData.validate(o, env['arguments'], env['record'])


def gen_hv(rng, opt):
    g = gen_v(rng, opt)
    s = g['self']
    s['next'] = s.pop('_validate')(None)
    b = s['_best']
    s['_trainedLearner'] = HLearner({}, 0, 0, 0, {})
    s['bestTrainedLearner'] = b and HLearner(b[1], 0, 0, 0, {})
    return g


HV = 'implies(self._best is not None, self.bestTrainedLearner is not None ' \
     'and self.bestTrainedLearner.args == self._best[1])'
for opt in ('max', 'min'):
    contract('holdout_best_' + opt, 'C15', TUNE + 'HoldoutData.validate',
             dict(arguments=Opt(Opq()), record=Bool()),
             selfp=Obj(TUNE + 'HoldoutData', _results=List(Real()),
                       _arguments=List(Opq()), next=Real(),
                       _best=Opt(Tup(Real(), Opq())), optimal=Const(opt),
                       _trainedLearner=Obj('HLearner', args=Opq()),
                       bestTrainedLearner=Opt(Obj('HLearner', args=Opq())),
                       _isBest=ext('operator.gt' if opt == 'max' else
                                   'operator.lt')),
             gen=lambda rng, opt=opt: gen_hv(rng, opt),
             native=native_hvalidate,
             overrides=sym_hvalidate, requires=VAL + [HV],
             ensures=[(f'the best is the best recorded ({i})', v)
                      for i, v in enumerate(VAL)] + [
                 ('the best learner is the one of the best arguments', HV),
                 ('recorded at the end, with its arguments',
                  'implies(record, len(self._results) == '
                  'len(old(self._results)) + 1 and '
                  'self._results[len(old(self._results))] == result and '
                  'self._arguments[len(old(self._results))] == '
                  'self._trainedLearner.args)'),
                 ('only when asked', 'implies(not record, self._results == '
                  'old(self._results) and self._best == old(self._best))'),
                 ('earlier records stay', 'all(self._results[i] == '
                  'old(self._results)[i] and self._arguments[i] == '
                  'old(self._arguments)[i] for i in '
                  'range(len(old(self._results))))')])
