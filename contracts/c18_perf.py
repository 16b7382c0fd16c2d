"""Performance functions: their value is the textbook expression."""
from contracts._common import *

LOSS = 'nimble.calculate.loss:'
SIM = 'nimble.calculate.similarity:'
BIN = 'nimble.calculate.binary:'


def genpair(el, lo=1):
    def gen(rng):
        n = rng.randint(lo, 5)
        rt = rng.choice(RTYPES)
        v = Vec(el, pt=False)
        return dict(knownValues=v.native([el.gen(rng) for _ in range(n)],
                                         False, rt),
                    predictedValues=v.native([el.gen(rng) for _ in
                                              range(n)], False, rt))
    return gen


def pair(el):
    return dict(knownValues=Vec(el, pt=False), predictedValues=Vec(
        el, pt=False))


SAME = 'len(cells(knownValues)) == len(cells(predictedValues))'
K, P = 'cells(knownValues)', 'cells(predictedValues)'
RUN = dict(requires=[SAME])

contract('loss_absolute', 'C18', LOSS + 'meanAbsoluteError', pair(Real()),
         gen=genpair(Real()), **RUN,
         ensures=[('mean absolute difference', f'close(result, sum(abs({P}[i] - '
                   f'{K}[i]) for i in range(len({P}))) / len({P}))')],
         pool=[PoolItem(f'c == sum(abs({P}[i] - {K}[i]) for i in range(k))',
                        c='num'), PoolItem('c == k', c='num')])

contract('loss_fraction', 'C18', LOSS + 'fractionIncorrect', pair(Opq()),
         gen=genpair(Opq()), **RUN,
         ensures=[('fraction of differing labels', f'close(result, sum((0 if '
                   f'{P}[i] == {K}[i] else 1) for i in range(len({P}))) / '
                   f'len({P}))')],
         pool=[PoolItem(f'c == sum((0 if {P}[i] == {K}[i] else 1) for i in '
                        'range(k))', c='num'), PoolItem('c == k', c='num')])

contract('loss_squared', 'C18', LOSS + 'rootMeanSquareError', pair(Real()),
         gen=genpair(Real()), **RUN,
         ensures=[('root of the mean squared difference',
                   f'close(result, sqrt(sum(({P}[i] - {K}[i]) * ({P}[i] - '
                   f'{K}[i]) for i in range(len({P}))) / len({P})))')],
         pool=[PoolItem(f'c == sum(({P}[i] - {K}[i]) * ({P}[i] - {K}[i]) '
                        'for i in range(k))', c='num'),
               PoolItem('c == k', c='num')])


def genconf(rng):
    n = rng.randint(1, 6)
    L = rng.randint(1, 3)
    rt = rng.choice(RTYPES)
    v = Vec(Int(), pt=False)
    lo, hi = (0, L - 1) if rng.random() < .7 else (-1, L)
    return dict(knownValues=v.native([rng.randint(lo, hi) for _ in range(n)],
                                     False, rt),
                predictedValues=v.native([rng.randint(lo, hi) for _ in
                                          range(n)], False, rt),
                labels=[f'l{i}' for i in range(L)])


VALIDL = f'all(0 <= {K}[i] and {K}[i] < len(labels) and 0 <= {P}[i] and ' \
         f'{P}[i] < len(labels) for i in range(len({K})))'
COUNT = 'sum((1 if {P}[i] == r and {K}[i] == c else 0) for i in ' \
        'range({n}))'.format(P=P, K=K, n='{n}')
contract('confusion_list', 'C18', SIM + '_confusionMatrixWithLabelsList',
         dict(**pair(Int()), labels=List(Opq(), lo=1)), gen=genconf, **RUN,
         raises={'IndexError': f'not {VALIDL}'},
         ensures=[('every pair counted once', 'all(result[0][r, c] == '
                   + COUNT.format(n=f'len({P})') + ' for r in '
                   'range(len(labels)) for c in range(len(labels)))'),
                  ('labels kept', 'result[1] == labels')],
         pool=[PoolItem('all(A[r, c] == ' + COUNT.format(n='k') +
                        ' for r in range(len(labels)) for c in '
                        'range(len(labels)))', A='arr2'),
               PoolItem('all(implies(x in S, 0 <= x and x < len(labels)) '
                        'for x in S)', S='set'),
               PoolItem(f'all(0 <= {K}[i] and {K}[i] < len(labels) and 0 <='
                        f' {P}[i] and {P}[i] < len(labels) for i in '
                        'range(k))')])


def binconf(eng):
    """confusionMatrix on labels [False, True] as confusion_list proves it
    (building the data object from the counted array is assumed)"""
    import ast
    from pyvc.spec import Spec
    from pyvc.values import HList
    from pyvc import table

    def conf(e, a, k):
        e.assumptions.add('confusionMatrix returns an object holding the '
                          'array its helper counted (confusion_list)')
        sp = Spec(e, e.specmacros, e.specfuncs)
        env = dict(kn=a[0], pr=a[1])
        ev = lambda t: sp.ev(ast.parse(t, mode='eval').body, env)
        if not e.branch(ev(
                'all(0 <= cells(kn)[i] and cells(kn)[i] < 2 and 0 <= '
                'cells(pr)[i] and cells(pr)[i] < 2 for i in '
                'range(len(cells(kn))))')):
            raise e.exc('IndexError')
        rows = e.new(HList(items=[e.new(HList(items=[ev(
            f'sum((1 if cells(pr)[i] == {r} and cells(kn)[i] == {c} else 0)'
            ' for i in range(len(cells(pr))))') for c in (0, 1)]))
            for r in (0, 1)]))
        return table.mkgrid(e, rows, 2)
    eng.summaries[SIM + 'confusionMatrix'] = conf


def bincount(p, k):
    c = ' and '.join([f'{P}[i] == {p}'] * (p is not None) +
                     [f'{K}[i] == {k}'] * (k is not None))
    return f'sum((1 if {c} else 0) for i in range(len({P})))'


BINARY = f'all(({K}[i] == 0 or {K}[i] == 1) and ({P}[i] == 0 or {P}[i] ' \
         f'== 1) for i in range(len({P})))'
TP, TN, FP, FN = (bincount(*x) for x in ((1, 1), (0, 0), (1, 0), (0, 1)))
KP, KN, PP = f'({TP} + {FN})', f'({TN} + {FP})', f'({TP} + {FP})'
BITS = Int(0, 1)
for nm, val, need in [
        ('truePositive', TP, None), ('trueNegative', TN, None),
        ('falsePositive', FP, None), ('falseNegative', FN, None),
        ('recall', f'{TP} / {KP}', KP), ('precision', f'{TP} / {PP}', PP),
        ('specificity', f'{TN} / {KN}', KN),
        ('balancedAccuracy', f'({TP} / {KP} + {TN} / {KN}) / 2',
         f'{KP} * {KN}'),
        ('f1Score', f'2 * {TP} / (2 * {TP} + {FP} + {FN})', TP)]:
    contract('binary_' + nm, 'C18', BIN + nm, pair(Int(-1, 2)),
             gen=genpair(BITS), overrides=binconf,
             requires=[SAME] + ([f'implies({BINARY}, {need} > 0)'] if need
                                else []),
             raises={'InvalidArgumentValue': f'not {BINARY}'},
             ensures=[('definition', f'close(result, {val})')])


contract('fraction_correct', 'C18', SIM + 'fractionCorrect', pair(Opq()),
         gen=genpair(Opq()), **RUN,
         ensures=[('fraction of equal labels', f'close(result, sum((1 if '
                   f'{P}[i] == {K}[i] else 0) for i in range(len({P}))) / '
                   f'len({P}))')],
         pool=[PoolItem(f'c == k - sum((1 if {P}[i] == {K}[i] else 0) for i '
                        'in range(k))', c='num'), PoolItem('c == k',
                                                           c='num')])
