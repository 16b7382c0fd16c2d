"""Class scores, one-vs-all and one-vs-one training with a learner whose
scores are random tables."""
import itertools

from .driver import *
from nimble import CustomLearner

RULE = ('random score tables with ties for two to six labels (numbers or '
        'text, in any order), raw scores as one column per label, one per '
        'pair or a single column; one-vs-all and one-vs-one training with '
        'labels as an object, name or index on every data type and all '
        'score modes; a case is one training with its predictions')
TABLE, SEEN, RAW = {}, [], {}


def cells(o):
    return read(o)[0] if hasattr(o, '_getNumpy') else o.copy('pythonlist')


def col(o, j=0):
    return [r[j] for r in o.copy('pythonlist')]


class Scores(CustomLearner):
    """the scores of point x are RAW[x], the prediction TABLE[x]"""
    learnerType = 'classification'

    def train(self, trainX, trainY):
        self.labels = sorted(set(col(trainY)))

    def apply(self, testX):
        return nimble.data([[self.predict(x)] for x in col(testX)],
                           useLog=False)

    def getScores(self, testX):
        return nimble.data([list(self.raw(x)) for x in col(testX)],
                           useLog=False)

    # nimble finds out about the form of three scores on data of its own
    def raw(self, x):
        if x in RAW:
            return RAW[x]
        n, b = len(self.labels), int(abs(x) * 1000) % len(self.labels)
        if FORM[0] == 'all':
            return [float(i == b) for i in range(n)]
        return [1.0 if p[0] == b else -1.0 if p[1] == b else .5
                for p in itertools.combinations(range(n), 2)]

    def predict(self, x):
        if x in TABLE:
            return TABLE[x]
        return self.labels[int(abs(x) * 1000) % len(self.labels)]


class Votes(CustomLearner):
    """predicts TABLE[what it was trained on, x]"""
    learnerType = 'classification'

    def train(self, trainX, trainY):
        rows = list(zip(col(trainX), col(trainY)))
        SEEN.append(rows)
        self.key = tuple(sorted(set(col(trainY)), key=str))
        if self.key == (0, 1):
            hot = {LABEL[x] for x, y in rows if y == 1}
            self.key = hot.pop() if len(hot) == 1 else None

    def apply(self, testX):
        return nimble.data([[TABLE[self.key, x]] for x in col(testX)],
                           useLog=False)


LABEL, FORM = {}, []


def scores(rng):
    n = rng.choice([2, 2, 3, 4, 5, 6])
    labels = rng.sample([-3, 0, 1, 2, 4.5, 7, 11, 20], n)
    srt = sorted(labels)
    ntest = rng.randint(1, 5)
    xs = list(range(ntest))
    form = rng.choice(['all', 'pairs' if n > 2 else 'all',
                       'single' if n == 2 else 'all'])
    FORM[:] = [form]
    vals = [-2.5, -1.0, -0.25, 0.5, 1.0, 3.0]
    TABLE.clear()
    RAW.clear()
    want = {}
    for x in xs:
        if form == 'single':
            v = rng.choice(vals)
            RAW[x] = [v]
            want[x] = [-v, v]
            TABLE[x] = srt[v > 0]
        elif form == 'all':
            # a learner predicts a label with its best score
            RAW[x] = [rng.choice(vals) for _ in srt]
            want[x] = RAW[x]
            TABLE[x] = srt[max(range(n), key=lambda i: RAW[x][i])]
        else:
            pair = {p: rng.choice(vals)
                    for p in itertools.combinations(range(n), 2)}
            RAW[x] = list(pair.values())
            w = wins(pair, n)
            want[x] = [c / (n - 1) for c in w]
            TABLE[x] = srt[w.index(max(w))]
    Y = [[v] for v in labels + [rng.choice(labels)
                                for _ in range(rng.randint(0, 4))]]
    X = [[i] for i in range(len(Y))]
    rt = rng.choice(TYPES)
    ynames = ['lab'] if rng.random() < .5 else None
    trainY = nimble.data(Y, featureNames=ynames, returnType=rt,
                         useLog=False)
    trainX = nimble.data(X, returnType=rt, useLog=False)
    pn = [f'p{i}' for i in xs] if rng.random() < .5 else None
    testX = nimble.data([[x] for x in xs], pointNames=pn, returnType=rt,
                        useLog=False)
    what = f'{rt} {form} labels {srt} raw {RAW} predictions {TABLE}'
    tl = nimble.train(Scores, trainX, trainY, useLog=False)
    got = cells(tl.getScores(testX))
    expect(eqrows(got, [want[x] for x in xs]), lambda: f'{what}: getScores '
           f'{got}, expected {[want[x] for x in xs]}')
    for mode in (None, 'allScores', 'bestScore'):
        o = tl.apply(testX, scoreMode=mode, useLog=False)
        g, fn = cells(o), o.features.getNames()
        if mode is None:
            w, wn = [[TABLE[x]] for x in xs], ynames
        elif mode == 'allScores':
            w, wn = [want[x] for x in xs], [
                str(v) for v in np.unique(np.array(labels))]
        else:
            w = [[TABLE[x], want[x][srt.index(TABLE[x])]] for x in xs]
            wn = ynames and ynames + ['bestScore']
        expect(eqrows(g, w), lambda: f'{what}: scoreMode {mode} gives {g}, '
               f'expected {w}')
        if wn:
            expect(fn == wn, lambda: f'{what}: scoreMode {mode} names {fn}')
        if pn:
            expect(o.points.getNames() == pn, lambda: f'{what}: scoreMode '
                   f'{mode} points {o.points.getNames()}')


def wins(pair, n):
    w = [0] * n
    for (i, j), v in pair.items():
        if v > 0:
            w[i] += 1
        elif v < 0:
            w[j] += 1
    return w


def multi(rng):
    n = rng.choice([2, 3, 3, 4, 5])
    rt = rng.choice(TYPES)
    one = rng.random() < .5
    text = rng.random() < .3 and rt in ('List', 'DataFrame')
    pool = ['a', 'b', 'c', 'dd', 'x', 'y'] if text else \
        [-3, 2, 3, 4.5, 7, 11, 20]
    if not text and rng.random() < .5:
        pool = [2, 3, 4, 7, 8, 12]
    labels = rng.sample(pool, n)
    y = labels + [rng.choice(labels) for _ in range(rng.randint(0, 5))]
    rng.shuffle(y)
    N = len(y)
    LABEL.clear()
    LABEL.update(enumerate(y))
    SEEN.clear()
    TABLE.clear()
    xs = list(range(100, 100 + rng.randint(1, 4)))
    for x in xs:
        if one:
            for p in itertools.combinations(labels, 2):
                TABLE[tuple(sorted(p, key=str)), x] = rng.choice(p)
        else:
            for l in labels:
                TABLE[l, x] = rng.choice([-2.0, 0.25, 0.5, 1.0, 3.0])
    form = rng.choice(['object', 'name', 'index'])
    pn = [f'n{i}' for i in range(N)] if rng.random() < .4 else None
    first = rng.random() < .5
    rows = [[y[i], i] if first else [i, y[i]] for i in range(N)]
    fn = ['lab', 'code'] if first else ['code', 'lab']
    named = rng.random() < .5
    pn = [f'n{i}' for i in range(N)] if rng.random() < .4 else None
    if form == 'object':
        X = nimble.data([[i] for i in range(N)], featureNames=['code'],
                        pointNames=pn, returnType=rt, useLog=False)
        Y = nimble.data([[v] for v in y], pointNames=pn, returnType=rt, useLog=False)
    else:
        X = nimble.data(rows, featureNames=fn if named or form == 'name'
                        else None, pointNames=pn, returnType=rt,
                        useLog=False)
        Y = 'lab' if form == 'name' else 1 - first
    before = X.copy(), Y if isinstance(Y, (str, int)) else Y.copy()
    test = nimble.data([[x] for x in xs], returnType=rt, useLog=False)
    strat = 'OneVsOne' if one else 'OneVsAll'
    mode = rng.choice([None, None, 'bestScore', 'allScores'])
    if one and text and mode == 'allScores':
        raise Skip     # labels are spelled as numbers in this mode
    what = f'{rt} {strat} labels {y} as {form}, {mode}, predictions {TABLE}'
    if rng.random() < .5:
        got = nimble.trainAndApply(
            Votes, X, Y, test, multiClassStrategy=strat, scoreMode=mode,
            useLog=False) if mode is None else None
    else:
        got = None
    if got is None:
        SEEN.clear()
        tl = nimble.train(Votes, X, Y, multiClassStrategy=strat,
                          useLog=False)
        got = tl.apply(test, scoreMode=mode, useLog=False)
    expect(X == before[0] and (Y == before[1]), f'{what}: the training data '
           'changed')
    # what the learner was trained on
    if one:
        want = [sorted((i, v) for i, v in enumerate(y) if v in p)
                for p in itertools.combinations(labels, 2)]
    else:
        want = [sorted((i, int(v == l)) for i, v in enumerate(y))
                for l in labels]
    seen = sorted(sorted((int(i), v) for i, v in s) for s in SEEN)
    expect(seen == sorted(want), lambda: f'{what}: trained on {seen}, '
           f'expected {sorted(want)}')
    g, names = cells(got), got.features.getNames()
    for r, x in zip(g, xs):
        if one:
            v = [TABLE[tuple(sorted(p, key=str)), x]
                 for p in itertools.combinations(labels, 2)]
            val = {l: v.count(l) for l in labels}
        else:
            val = {l: TABLE[l, x] for l in labels}
        top = max(val.values())
        if mode is None:
            expect(len(r) == 1 and r[0] in val and val[r[0]] == top,
                   lambda: f'{what}: predicts {r} for {x}, the best of '
                   f'{val}')
        elif mode == 'bestScore':
            key = [l for l in labels if r[0] == l or not one and (
                r[0] == l if text else float(r[0]) == l)]
            expect(len(r) == 2 and len(key) == 1 and val[key[0]] == top
                   and r[1] == top, lambda: f'{what}: best {r} for {x}, '
                   f'the scores are {val}')
        else:
            spell = (lambda l: str(float(l))) if one else str
            w = [val[l] for l in sorted(labels, key=spell)]
            expect(eqrows([r], [w]), lambda: f'{what}: scores {r} ({names}) '
                   f'for {x}, expected {w}')
    expect(len(g) == len(xs), lambda: f'{what}: {len(g)} predictions')
    if mode is None:
        expect(names == ['winningLabel'], lambda: f'{what}: {names}')
    elif mode == 'bestScore':
        expect(names == ['PredictedClassLabel', 'LabelScore'],
               lambda: f'{what}: {names}')
    else:
        spell = (lambda l: str(float(l))) if one else str
        expect(names == sorted(map(spell, labels)) or
               sorted(map(float, names)) == sorted(map(float, labels)),
               lambda: f'{what}: {names}')


def run(api):
    loop(api, "scores", 150, scores, .5)
    loop(api, "multi", 300, multi)
