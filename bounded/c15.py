"""Hyperparameter tuning of a learner whose score is a known function of its
arguments."""
import itertools
import math

from .driver import *
from nimble import CustomLearner, Tune, Tuning
from nimble.calculate import performanceFunction

RULE = ('random candidate sets for up to three arguments, random score '
        'tables with ties, minimum and maximum optimal performance functions, '
        'brute force, consecutive and iterative selection with every kind of '
        'validation; Tune objects from values and ranges; a case is one '
        'tuning or one Tune')
SCORE = {}


class Probe(CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=0, b=0, c=0, fixed=0):
        self.code = code(dict(a=a, b=b, c=c, fixed=fixed))

    def apply(self, testX):
        return nimble.data([[self.code] for _ in range(len(testX.points))],
                           useLog=False)


@performanceFunction('min')
def low(knownValues, predictedValues):
    return SCORE[predictedValues[0, 0]]


@performanceFunction('max')
def high(knownValues, predictedValues):
    return SCORE[predictedValues[0, 0]]


def code(a):
    a = {k: v[0] if isinstance(v, list) else v for k, v in a.items()}
    return (a.get('a', 0) * 100 + a.get('b', 0) * 10 + a.get('c', 0)
            + a.get('fixed', 0) * 1000)


def consecutive(cands, order, fixed, loops, better):
    """coordinate search as documented: -> evaluated argument sets"""
    cur = {k: v[0] for k, v in cands.items()}
    cur.update(fixed)
    out = [dict(cur)]
    best, bargs = SCORE[code(cur)], dict(cur)
    for loop in range(loops):
        for k in order:
            vals = cands[k][1:] if loop == 0 else None
            start = dict(bargs)
            if loop:
                vals = [v for v in cands[k] if v != first[k]]
            for v in vals:
                a = dict(start)
                a[k] = v
                if a in out:
                    continue
                out.append(a)
                s = SCORE[code(a)]
                if better(s, best):
                    best, bargs = s, dict(a)
        first = dict(bargs)
    return out


def tuning(rng):
    f = rng.choice([low, high])
    better = (lambda p, q: p < q) if f is low else (lambda p, q: p > q)
    SCORE.clear()
    top = rng.choice([3, 30])
    SCORE.update({i: rng.randint(0, top) / 4 for i in range(3000)})
    n = rng.randint(5, 7)
    X = nimble.data([[i] for i in range(n)], useLog=False)
    Y = nimble.data([[i] for i in range(n)], useLog=False)
    names = rng.sample(['a', 'b', 'c'], rng.randint(1, 3))
    cands = {k: rng.sample(range(10), rng.choice([1, 2, 3, 4]))
             for k in names}
    fixed = {'fixed': rng.choice([1, 2])} if rng.random() < .5 else {}
    if rng.random() < .15:
        # candidates need not be hashable
        cands = {k: [[x] for x in v] for k, v in cands.items()}
    sel, val = rng.choice([
        ('brute force', 'cross validation'), ('brute force', 'data'),
        ('brute force', 'proportion'), ('consecutive', 'cross validation'),
        ('consecutive', 'data'), ('consecutive', 'leave one out'),
        ('iterative', 'data'), ('iterative', 'data')])
    loops = rng.choice([1, 1, 2, 3])
    order = None
    if sel == 'consecutive' and rng.random() < .4:
        order = rng.sample(names, len(names))
    t = Tuning(selection=sel, validation=val, performanceFunction=f,
               validateX=X, validateY=Y, loops=loops,
               order=list(order) if order else None, maxIterations=12,
               folds=3)
    args = {k: Tune(list(v)) for k, v in cands.items()}
    args.update(fixed)
    what = f'{sel}/{val} {f.__name__} {cands} {fixed} loops={loops} ' \
           f'order={order}'
    tl = nimble.train(Probe, X, Y, arguments=args, tuning=t, useLog=False)
    for g, where in ((t, 'tuning'), (tl.tuning, 'learner tuning')):
        res, al = g.allResults, g.allArguments
        expect(len(res) == len(al) and len(al) > 0, what)
        for r, a in zip(res, al):
            expect(set(a) == set(cands) | set(fixed),
                   lambda: f'{what}: evaluated {a}')
            for k, v in a.items():
                expect(v in cands[k] if k in cands else v == fixed[k],
                       lambda: f'{what}: evaluated {a}')
            expect(SCORE[code(a)] == r, lambda: f'{what}: {where} pairs {a} '
                   f'with {r}, its score is {SCORE[code(a)]}')
        want = sorted(res, reverse=f is high)
        expect(res == want, lambda: f'{what}: results {res}')
        expect(g.bestResult == want[0] and SCORE[code(g.bestArguments)]
               == want[0] and g.bestArguments in al,
               lambda: f'{what}: best {g.bestResult} {g.bestArguments} of '
               f'{list(zip(res, al))}')
        if sel == 'brute force':
            every = [dict(zip(cands, c), **fixed) for c in
                     itertools.product(*cands.values())]
            expect(len(al) == len(every) and all(e in al for e in every),
                   lambda: f'{what}: evaluated {al}')
        if sel == 'consecutive' and loops == 1:
            want = consecutive(cands, order or list(cands), fixed, loops,
                               better)
            expect(len(al) == len(want) and all(e in al for e in want),
                   lambda: f'{what}: evaluated {al}, expected {want}')
        if sel == 'consecutive':
            # nothing is evaluated twice, every value of the first is tried
            expect(all(al.count(a) == 1 for a in al),
                   lambda: f'{what}: evaluated {al}')
            for k in cands:
                expect(all(any(a[k] == v for a in al) for v in cands[k]),
                       lambda: f'{what}: values of {k} in {al}')
        if val in ('cross validation', 'leave one out'):
            expect(all(set(d) == {r} for r, d in zip(res, g.deepResults)),
                   lambda: f'{what}: deep results {g.deepResults}')
    expect(tl.arguments == t.bestArguments,
           lambda: f'{what}: learner arguments {tl.arguments}, best '
           f'{t.bestArguments}')
    got = tl.apply(X, useLog=False)[0, 0]
    expect(got == code(t.bestArguments), lambda: f'{what}: the learner '
           f'behaves like {got}, best {t.bestArguments}')


def expected(start, end, change, ctype):
    out = []
    v = start
    if start == end:
        return [start]
    up = start < end
    if ctype == 'multiply':
        if start <= 0 or end <= 0 or change <= 0 or change == 1 or (
                (change > 1) != up):
            return None
    elif change == 0 or (change > 0) != up:
        return None
    i = 0
    while True:
        v = start * change ** i if ctype == 'multiply' else start + change * i
        if (v > end + 1e-9) if up else (v < end - 1e-9):
            return out
        out.append(v)
        i += 1


def tune_values(rng):
    if rng.random() < .3:
        r = rng.choice([range(0, rng.randint(1, 9), rng.randint(1, 4)),
                        range(rng.randint(3, 9), rng.randint(0, 2),
                              -rng.randint(1, 3)), range(3, 4),
                        range(-2, 5, 2)])
        t = Tune(r)
        expect(list(t) == list(r) and len(t) == len(r),
               lambda: f'Tune({r}) is {list(t)}')
        return
    if rng.random() < .3:
        v = rng.choice([[1, 2, 3], [3, 1], ['x', 'y'], [0], [1, 10, 100],
                        [.5, None], (4, 2, 9)])
        t = Tune(v)
        expect(list(t) == list(v) and [t[i] for i in range(len(t))]
               == list(v), lambda: f'Tune({v}) is {list(t)}')
        return
    ctype = rng.choice([None, 'add', 'multiply'])
    start = rng.choice([None, 0, 1, 2, -3, .1, 8, 5])
    end = rng.choice([0, 1, 3, 10, -4, .7, 16, 5])
    change = rng.choice([None, 1, 2, .2, -1, -2, .5, 3, 0])
    s, c = 0 if start is None else start, 1 if change is None else change
    want = expected(s, end, c, ctype or 'add')
    if ctype == 'multiply' and (s <= 0 or end <= 0):
        want = None
    what = f'Tune(start={start}, end={end}, change={change}, ' \
           f'changeType={ctype})'
    st, t = attempt(Tune, start=start, end=end, change=change,
                    changeType=ctype)
    if want is None:
        expect(st == 'raise', lambda: f'{what} must be refused')
        return
    if st == 'raise':
        raise t
    expect(len(t) == len(want) and all(
        math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
        for a, b in zip(t, want)), lambda: f'{what} is {list(t)}, expected '
        f'{want}')


def validating(rng):
    """validators used directly: each result is the score of its arguments,
    whatever was evaluated before"""
    f = rng.choice([low, high])
    SCORE.clear()
    SCORE.update({i: rng.randint(0, 30) / 4 for i in range(3000)})
    n = rng.randint(4, 6)
    X = nimble.data([[i] for i in range(n)], useLog=False)
    Y = nimble.data([[i] for i in range(n)], useLog=False)
    tune = nimble.core.tune
    kind, kw = rng.choice([
        (tune.HoldoutData, dict(validateX=X, validateY=Y)),
        (tune.HoldoutData, dict(validateX=X, validateY=Y, randomSeed=4)),
        (tune.HoldoutProportion, dict(proportion=.5)),
        (tune.KFold, dict(folds=2)), (tune.LeaveOneOut, {})])
    v = kind(Probe, X, Y, f, useLog=False, **kw)
    done = []
    what = ''
    for _ in range(rng.randint(1, 5)):
        a = {k: rng.randint(0, 9) for k in
             rng.sample(['a', 'b', 'c'], rng.randint(0, 3))}
        rec = rng.random() < .8
        what = f'{kind.__name__}({kw}) after {done}: {a} record={rec}'
        given = dict(a)
        got = v.validate(a, record=rec) if rng.random() < .5 else \
            v.validate(record=rec, **a)
        expect(a == given, lambda: f'{what}: changed to {a}')
        expect(got == SCORE[code(a)], lambda: f'{what}: {got}, its score is '
               f'{SCORE[code(a)]}')
        if rec:
            done.append(a)
        b = v._best
        if done:
            top = (min if f is low else max)(SCORE[code(x)] for x in done)
            expect(b[0] == top and SCORE[code(b[1])] == top
                   and b[1] in done, lambda: f'{what}: best {b}')
        else:
            expect(b is None, lambda: f'{what}: best {b}')
        expect(v._arguments == done and v._results == [
            SCORE[code(x)] for x in done], lambda: f'{what}: recorded '
            f'{v._arguments} {v._results}')
        if done and kind is tune.HoldoutData:
            t = v.bestTrainedLearner.apply(X, useLog=False)[0, 0]
            expect(t == code(b[1]), lambda: f'{what}: the best learner '
                   f'behaves like {t}, best {b}')


def run(api):
    loop(api, 'validating', 60, validating)
    loop(api, 'tune', 300, tune_values)
    loop(api, 'tuning', 130, tuning)
