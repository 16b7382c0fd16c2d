"""Performance functions on label vectors of every type against textbook
definitions written with the standard library only."""
import math

from .driver import *
from nimble.exceptions import NimbleException

calc = nimble.calculate
RULE = ('random label vectors (0/1, small integers, text, numbers) of up to '
        '7 points in every pair of data types, every performance function, '
        'with mismatched shapes and missing values mixed in; a case is one '
        'call')


def vec(rng, vals, rt, pn=False):
    return nimble.data([[v] for v in vals], returnType=rt, useLog=False,
                       convertToType=None)


def ratio(a, b):
    return a / b if b else math.nan


def counts(k, p):
    c = [[0, 0], [0, 0]]
    for a, b in zip(k, p):
        c[int(b)][int(a)] += 1
    return c


def mean(v):
    return sum(v) / len(v)


def var(v):
    m = mean(v)
    return mean([(x - m) ** 2 for x in v])


def b_tp(k, p): return counts(k, p)[1][1]
def b_tn(k, p): return counts(k, p)[0][0]
def b_fp(k, p): return counts(k, p)[1][0]
def b_fn(k, p): return counts(k, p)[0][1]
def b_rec(k, p): return ratio(b_tp(k, p), b_tp(k, p) + b_fn(k, p))
def b_pre(k, p): return ratio(b_tp(k, p), b_tp(k, p) + b_fp(k, p))
def b_spe(k, p): return ratio(b_tn(k, p), b_tn(k, p) + b_fp(k, p))
def b_bal(k, p): return (b_rec(k, p) + b_spe(k, p)) / 2


def b_f1(k, p):
    a, b = b_pre(k, p), b_rec(k, p)
    return ratio(2 * a * b, a + b) if a == a and b == b else math.nan


BINARY = dict(truePositive=b_tp, trueNegative=b_tn, falsePositive=b_fp,
              falseNegative=b_fn, recall=b_rec, precision=b_pre,
              specificity=b_spe, balancedAccuracy=b_bal, f1Score=b_f1)
MAX = {'truePositive', 'trueNegative', 'recall', 'precision', 'specificity',
       'balancedAccuracy', 'f1Score', 'fractionCorrect', 'rSquared',
       'cosineSimilarity'}


def wrong(k, p): return sum(a != b for a, b in zip(k, p)) / len(k)
def correct(k, p): return sum(a == b for a, b in zip(k, p)) / len(k)
def mae(k, p): return mean([abs(a - b) for a, b in zip(k, p)])
def rmse(k, p): return math.sqrt(mean([(a - b) ** 2 for a, b in zip(k, p)]))


def vfr(k, p):
    return ratio(mean([(a - b) ** 2 for a, b in zip(k, p)]), var(k))


def r2(k, p): return 1 - vfr(k, p)


def cos(k, p):
    return ratio(sum(a * b for a, b in zip(k, p)), math.sqrt(
        sum(a * a for a in k)) * math.sqrt(sum(b * b for b in p)))


ANY = dict(fractionIncorrect=wrong, fractionCorrect=correct)
NUM = dict(meanAbsoluteError=mae, rootMeanSquareError=rmse,
           varianceFractionRemaining=vfr, rSquared=r2, cosineSimilarity=cos)


def close(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b))


def measure(rng, i):
    kind = rng.choice(['bin', 'any', 'num', 'num'])
    n = rng.randint(1, 7)
    rk, rp = rng.choice(TYPES), rng.choice(TYPES)
    if kind == 'bin':
        nm, f = rng.choice(sorted(BINARY.items()))
        pool = [0, 1] if rng.random() < .8 else [0, 1, 1.0, 0.0]
        if rng.random() < .1:
            pool = rng.choice([[0], [1]])
    elif kind == 'any':
        nm, f = rng.choice(sorted(ANY.items()))
        pool = rng.choice([[0, 1], [0, 1, 2, 5], [-1.5, 2, 0],
                           ['a', 'b', 'c d', 'zz']])
    else:
        nm, f = rng.choice(sorted(NUM.items()))
        pool = rng.choice([[0, 1], [-2, -1, 0, 1, 2, 7],
                           [-1.5, .25, 3.0, 1e3, 1e-3]])
    if any(isinstance(v, str) for v in pool):
        rk, rp = [x if x != 'Sparse' else 'List' for x in (rk, rp)]
    k = [rng.choice(pool) for _ in range(n)]
    p = [rng.choice(pool) for _ in range(n)]
    if rng.random() < .1:
        p = list(k)
    fn = getattr(calc, nm)
    what = f'{nm}({k}, {p}) [{rk}, {rp}]'
    bad = rng.random()
    if .08 <= bad < .16 and isinstance(pool[0], str):
        bad = .5
    if bad < .08:
        m = rng.randint(1, 7)
        if m == n:
            m += 1
        p = [rng.choice(pool) for _ in range(m)]
    elif bad < .16:
        (k if rng.random() < .5 else p)[rng.randrange(n)] = rng.choice(
            [None, math.nan])
    elif bad < .2:
        pass
    else:
        bad = 1
    ko, po = vec(rng, k, rk), vec(rng, p, rp)
    if .16 <= bad < .2:
        po.features.append(vec(rng, p, rp), useLog=False)
    if bad < .2:
        try:
            r = fn(ko, po)
        except NimbleException:
            pass
        else:
            expect(False, f'{what}: {k} and {p} must be refused, got {r}')
        return
    want = f(k, p)
    try:
        got = fn(ko, po)
    except ZeroDivisionError:
        expect(want != want, f'{what}: division by zero, expected {want}')
        return
    if want != want and got == got and abs(got) == math.inf:
        return
    expect(close(float(got), want), f'{what} = {got}, expected {want}')
    expect(eqrows([[x] for x in k], read(ko, False).rows)
           and eqrows([[x] for x in p], read(po, False).rows),
           f'{what} changed its arguments')
    o = 'max' if nm in MAX else 'min'
    expect(fn.optimal == o, f'{nm}.optimal is {fn.optimal}')


def featurewise(rng):
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    k = [[rng.choice([-2, 0, 1.5, 3]) for _ in range(m)] for _ in range(n)]
    p = [[rng.choice([-2, 0, 1.5, 3]) for _ in range(m)] for _ in range(n)]
    a, b = (nimble.data(x, returnType=rng.choice(TYPES), useLog=False)
            for x in (k, p))
    want = mean([rmse([r[j] for r in k], [r[j] for r in p])
                 for j in range(m)])
    got = calc.meanFeaturewiseRootMeanSquareError(a, b)
    expect(close(got, want), f'meanFeaturewise RMSE of {k} {p}: {got}, '
           f'expected {want}')


def confusion(rng):
    n = rng.randint(1, 8)
    L = rng.randint(1, 4)
    mode = rng.choice(['none', 'list', 'dict'])
    if mode == 'list':
        pool = list(range(L))
        labels = [f'l{i}' for i in rng.sample(range(9), L)]
        given, shown = labels, labels
        order = pool
    else:
        pool = rng.choice([list(range(L)), ['b', 'a', 'd', 'c'][:L],
                           [3, 10, -2, 7][:L], [0.5, 2.0, -1.5, 4.25][:L]])
        order = sorted(pool)
        if mode == 'dict':
            d = {x: f'n{i}' for i, x in enumerate(pool)}
            items = list(d.items())
            rng.shuffle(items)
            given = dict(items)
            shown = [d[x] for x in order]
        else:
            given = None
    k = [rng.choice(pool) for _ in range(n)]
    p = [rng.choice(pool) for _ in range(n)]
    if mode == 'none':
        if not set(p) <= set(k):
            return
        order = sorted(set(k))
        shown = [int(x) if not isinstance(x, str) and x == int(x) else x
                 for x in order]
    text = any(isinstance(x, str) for x in pool)
    ts = [t for t in TYPES if t != 'Sparse' or not text]
    rk, rp = rng.choice(ts), rng.choice(ts)
    frac = rng.random() < .4
    want = [[sum(a == c and b == r for a, b in zip(k, p)) / (n if frac
                                                            else 1)
             for c in order] for r in order]
    what = f'confusionMatrix({k}, {p}, {given}, {frac}) [{rk}, {rp}]'
    ko, po = vec(rng, k, rk), vec(rng, p, rp)
    got = calc.confusionMatrix(ko, po, given, frac)
    expect(got.getTypeString() == rk, f'{what} is a {got.getTypeString()}')
    same(got, Tab(want, ['predicted_' + str(x) for x in shown],
                  ['known_' + str(x) for x in shown]), what)
    # a value that is no label must be refused
    if mode != 'none' and not text:
        (k if rng.random() < .5 else p)[rng.randrange(n)] = rng.choice(
            [99, -7, L if mode == 'list' else 99])
        try:
            r = calc.confusionMatrix(vec(rng, k, rk), vec(rng, p, rp), given)
        except (NimbleException, LookupError):
            pass
        else:
            expect(False, f'confusionMatrix({k}, {p}, {given}) must be '
                   'refused')


def best(rng):
    """the direction found by trials is the declared one"""
    nm = rng.choice(sorted(set(ANY) | set(NUM) - {
        'cosineSimilarity'} | {'balancedAccuracy'}))
    fn = getattr(calc, nm)

    def plain(k, p):
        return fn(k, p)
    nimble.random.setSeed(rng.randrange(1000), useLog=False)
    want = 'max' if nm in MAX else 'min'
    try:
        got = calc.detectBestResult(plain)
    except NimbleException:
        return
    expect(got == want, f'detectBestResult({nm}) = {got}')
    expect(calc.detectBestResult(fn) == want, f'{nm} direction')


def decorated(rng):
    """declared attributes and input validation of performanceFunction"""
    opt, bst = rng.choice(['min', 'max']), rng.choice([None, 0, 1])
    kw = {w: rng.random() < .5 for w in (
        'requires1D', 'samePtCount', 'sameFtCount', 'allowEmpty',
        'allowMissing')}
    calls = []

    @calc.performanceFunction(opt, bst, **kw)
    def f(k, p):
        calls.append(1)
        return 5
    expect(f.optimal == opt and f.best == bst, 'declared attributes')
    a, b = ((rng.choice([0, 1, 2, 2, 3, 3]), rng.choice([1, 1, 2, 0]))
            for _ in 'ab')
    nan = rng.choice([None, None, 0, 1])

    def ob(s, miss):
        if 0 in s:
            import numpy as np
            return nimble.data(np.empty(s), useLog=False)
        rows = [[1] * s[1] for _ in range(s[0])]
        if miss:
            rows[-1][-1] = None
        return nimble.data(rows, useLog=False)
    ko, po = ob(a, nan == 0), ob(b, nan == 1)
    miss = (nan == 0 and 0 not in a) or (nan == 1 and 0 not in b)
    refuse = (not kw['allowEmpty'] and 0 in a + b
              or kw['samePtCount'] and a[0] != b[0]
              or kw['sameFtCount'] and a[1] != b[1]
              or kw['requires1D'] and b[1] > 1
              or not kw['allowMissing'] and miss)
    what = f'performanceFunction({kw}) on {a} {b} missing {nan}'
    try:
        r = f(ko, po)
    except NimbleException:
        expect(refuse and not calls, f'{what} refused')
    else:
        expect(not refuse and r == 5 and calls == [1], f'{what} accepted')


def run(api):
    scale = 6 if api.thorough else 1
    for i in range(1500 * scale):
        if api.left() < 20:
            break
        api.case(f'measure {i}', measure, api.rng('m', i), i)
    for i in range(400 * scale):
        if api.left() < 10:
            break
        api.case(f'confusion {i}', confusion, api.rng('c', i))
        if i % 4 == 0:
            api.case(f'featurewise {i}', featurewise, api.rng('f', i))
        api.case(f'decorated {i}', decorated, api.rng('d', i))
    for i in range(10 * scale):
        if api.left() < 5:
            break
        api.case(f'best {i}', best, api.rng('b', i))
