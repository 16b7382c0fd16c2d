"""Splitting into training and testing sets, and what learning does to the
objects it is given."""
import copy
import warnings

from .driver import *
from nimble import CustomLearner
from nimble.calculate import performanceFunction

RULE = ('random tables (also views) with random label selections, fractions '
        'and orders; training, applying, testing and retraining a recording '
        'learner and learners of scikit-learn (also told to work in place) '
        'with labels as object, name or index; a case is one split or one '
        'use of a learner')


def split(rng):
    tab = gentab(rng, hi=7)
    rt = rng.choice(TYPES)
    view = rng.random() < .3
    big = None
    if view:
        o, src, big = mkview(tab, rt, rng, rng.choice(HOW))
    else:
        o = mk(tab, rt, rng.choice(HOW))
    n, m = tab.np, tab.nf
    frac = rng.choice([0, 1, .5, .25, .34, rng.random(), rng.random(),
                       rng.randint(0, n) / n])
    rand = rng.random() < .6
    kind = rng.choice(['none', 'object', 'id', 'list'])
    if kind in ('id', 'list') and m < 2:
        raise Skip
    ytab = lobj = None
    xs = list(range(m))
    if kind == 'none':
        labels = None
    elif kind == 'object':
        ytab = gentab(rng, n=n, m=rng.randint(1, 2))
        ytab.pn = list(tab.pn)
        if nm(tab.fn) and rng.random() < .5:
            # labels that are among the features as well
            j = rng.randrange(m)
            if tab.fn[j]:
                ytab.fn[0] = tab.fn[j]
                ytab.fn[1:] = [None] * (ytab.nf - 1)
                xs.remove(j)
            else:
                ytab.fn = [None] * ytab.nf
        else:
            ytab.fn = ['lab' + str(i) for i in range(ytab.nf)] \
                if rng.random() < .5 else [None] * ytab.nf
        if not xs:
            raise Skip
        labels = lobj = mk(ytab, rng.choice(TYPES))
    else:
        js = rng.sample(range(m), 1 if kind == 'id' else
                        rng.randint(1, m - 1))
        labels = [ident(rng, tab.fn, j, m) for j in js]
        if kind == 'id':
            labels = labels[0]
        else:
            given = list(labels)
        ytab = tab.pick(fts=js)
        xs = [j for j in xs if j not in js]
    what = f'{tab} {rt} view={view}: trainAndTestSets({frac}, ' \
        f'{ytab if kind == "object" else labels}, {rand})'
    got = o.trainAndTestSets(frac, labels, rand, useLog=False)
    same(o, tab, what + ': the source changed')
    if view:
        same(src, big, what + ': the viewed object changed')
    if lobj is not None:
        same(lobj, ytab, what + ': the labels changed')
    if kind == 'list':
        expect(labels == given, f'{what}: the list of labels changed')
    expect(isinstance(got, tuple) and len(got) == (2 if kind == 'none'
                                                   else 4), what)
    tabs = [read(g) for g in got]
    if kind == 'none':
        parts = [(tabs[0], None), (tabs[1], None)]
    else:
        parts = [(tabs[0], tabs[1]), (tabs[2], tabs[3])]
        expect(tabs[0].np == tabs[1].np and tabs[2].np == tabs[3].np,
               lambda: f'{what}: sizes {[t.np for t in tabs]}')
        for t in (tabs[1], tabs[3]):
            expect(t.fn == ytab.fn, lambda: f'{what}: label names {t.fn}')
    for x, y in parts:
        expect(x.fn == [tab.fn[j] for j in xs], lambda: f'{what}: features '
               f'{x.fn}')
    nt = parts[1][0].np
    expect(parts[0][0].np + nt == n and abs(nt - frac * n) <= .5 + 1e-9,
           lambda: f'{what}: {nt} testing points of {n}')
    # points with their names and labels, in order
    xtab = tab.pick(fts=xs)

    def line(x, y, i):
        return (x.rows[i] + (y.rows[i] if y else []), x.pn[i],
                y.pn[i] if y else None)
    have = [line(x, y, i) for x, y in parts for i in range(x.np)]
    want = [line(xtab, ytab, i) for i in range(n)]

    def eq(a, b):
        return a[1:] == b[1:] and eqrows([a[0]], [b[0]])
    if not rand:
        expect(len(have) == n and all(map(eq, have, want)),
               lambda: f'{what}: {have}, expected {want}')
    left = list(want)
    for h in have:
        k = [i for i, w in enumerate(left) if eq(h, w)]
        expect(k, lambda: f'{what}: the point {h} is not one of the '
               f'remaining {left}')
        del left[k[0]]
    # the parts share nothing with the source
    for g in got:
        if len(g.points) and len(g.features):
            g.points.setNames(None, useLog=False)
            g.features.setNames(None, useLog=False)
            g.transformElements(lambda v: 77, useLog=False)
    same(o, tab, what + ': changing the parts changed the source')
    if lobj is not None:
        same(lobj, ytab, what + ': changing the parts changed the labels')


def refused(rng):
    tab = gentab(rng)
    rt = rng.choice(TYPES)
    o = mk(tab, rt)
    kind = rng.choice(['fraction', 'size', 'names', 'id'])
    frac, labels = .5, None
    if kind == 'fraction':
        frac = rng.choice([-.1, 1.1, 2, -1])
    elif kind == 'size':
        labels = mk(gentab(rng, n=tab.np + rng.choice([1, 2])), 'List')
    elif kind == 'id':
        labels = rng.choice([tab.nf, -tab.nf - 1, 'nope'])
    else:
        t = gentab(rng, n=tab.np)
        tab.pn = [f'p{i}' for i in range(tab.np)]
        t.pn = [f'q{i}' for i in range(tab.np)]
        o, labels = mk(tab, rt), mk(t, 'List')
    what = f'{tab} {rt}: trainAndTestSets({frac}, {labels})'
    st, val = attempt(o.trainAndTestSets, frac, labels, useLog=False)
    expect(st == 'raise', lambda: f'{what}: is not refused ({kind})')
    same(o, tab, what)


CALLS = []


def plain(o):
    return None if o is None else o.copy('pythonlist')


class Recorder(CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=1, deep=None):
        CALLS.append(('train', plain(trainX), plain(trainY), a,
                      copy.deepcopy(deep)))
        self.a = a

    def incrementalTrain(self, trainX, trainY, a=1, deep=None):
        CALLS.append(('train', plain(trainX), plain(trainY), None, None))

    def apply(self, testX):
        CALLS.append(('apply', plain(testX)))
        return nimble.data([[sum(v for v in r) * self.a]
                            for r in testX.copy('pythonlist')], useLog=False)


@performanceFunction('min')
def dist(knownValues, predictedValues):
    CALLS.append(('known', plain(knownValues), plain(predictedValues)))
    return 1.0


def objects(rng, rt, n=None, m=None):
    """-> X with labels as (X, Y, rows without labels, label rows)"""
    n, m = n or rng.randint(1, 6), m or rng.randint(1, 3)
    rows = [[rng.choice([0, 1, 2.5, -3, 4]) for _ in range(m)]
            for _ in range(n)]
    y = [[rng.choice([0, 1, 2])] for _ in range(n)]
    pn = [f'p{i}' for i in range(n)] if rng.random() < .4 else None
    named = rng.random() < .6
    form = rng.choice(['object', 'name', 'index'])
    if form == 'object':
        X = Tab(rows, pn, [f'f{j}' for j in range(m)] if named else None)
        Y = Tab(y, pn, ['lab'] if named else None)
        return X, Y, rows, y
    j = rng.randint(0, m)
    fn = [f'f{k}' for k in range(m)]
    fn.insert(j, 'lab')
    X = Tab([r[:j] + v + r[j:] for r, v in zip(rows, y)], pn,
            fn if named or form == 'name' else None)
    return X, ('lab' if form == 'name' else rng.choice([j, np.int64(j)])), \
        rows, y


def inst(t, rt, rng):
    if not isinstance(t, Tab):
        return t
    if rng.random() < .25:
        return mkview(t, rt, rng)[0]
    return mk(t, rt, rng.choice(HOW))


def learn(rng):
    rt = rng.choice(TYPES)
    X, Y, rows, y = objects(rng, rt)
    m = len(rows[0])
    T = Tab([[rng.choice([0, 1, 2.5]) for _ in range(m)]
             for _ in range(rng.randint(1, 4))], None, None)
    x, yy, t = inst(X, rt, rng), inst(Y, rt, rng), inst(T, rt, rng)
    TY = Tab([[rng.choice([0, 1])] for _ in range(T.np)])
    ty = inst(TY, rt, rng)
    args = {}
    if rng.random() < .7:
        args['a'] = rng.choice([2, 3])
    if rng.random() < .7:
        args['deep'] = [1, {'k': [2]}]
    keep = copy.deepcopy(args)
    kw = {}
    if 'a' not in args and rng.random() < .5:
        kw = {'a': 5}
    CALLS.clear()
    how = rng.choice(['train', 'trainAndApply', 'trainAndTest', 'ontrain',
                      'retrain', 'incremental', 'applyself', 'inX'])
    what = f'{rt} {how}: X {X}, Y {Y}, arguments {keep} {kw}'
    opt = dict(useLog=False, **kw)
    called = None
    if how == 'trainAndApply':
        out = nimble.trainAndApply(Recorder, x, yy, t, arguments=args, **opt)
        called, known = T.rows, None
    elif how == 'applyself':
        out = nimble.trainAndApply(Recorder, x, yy, arguments=args, **opt)
        called, known = rows, None
    elif how == 'trainAndTest':
        nimble.trainAndTest(Recorder, dist, x, yy, t, ty, arguments=args,
                            **opt)
        called, known = T.rows, TY.rows
    elif how == 'inX':
        # the labels of the testing data are in it as well
        nimble.trainAndTest(Recorder, dist, x, yy, x, yy, arguments=args,
                            **opt)
        called, known = rows, y
    elif how == 'ontrain':
        nimble.trainAndTestOnTrainingData(Recorder, dist, x, yy,
                                          arguments=args, **opt)
        called, known = rows, y
    else:
        tl = nimble.train(Recorder, x, yy, arguments=args, **opt)
        if how == 'retrain':
            CALLS.clear()
            tl.retrain(x, yy, arguments=args, **opt)
        elif how == 'incremental' and isinstance(Y, Tab):
            tl.incrementalTrain(x, yy, useLog=False)
            expect(eqrows(CALLS[-1][1], rows) and eqrows(CALLS[-1][2], y),
                   lambda: f'{what}: incremental {CALLS[-1]}')
        if rng.random() < .5:
            out = tl.apply(t, useLog=False)
            called, known = T.rows, None
            if how == 'incremental':
                CALLS[:] = CALLS[:1] + [c for c in CALLS if c[0] == 'apply']
        else:
            tl.test(dist, t, ty, useLog=False)
            called, known = T.rows, TY.rows
    tr = CALLS[0]
    expect(tr[0] == 'train' and eqrows(tr[1], rows) and eqrows(tr[2], y),
           lambda: f'{what}: trained on {tr[1]} with labels {tr[2]}')
    expect(tr[3] == {**keep, **kw}.get('a', 1) and tr[4] == keep.get('deep'),
           lambda: f'{what}: the learner got the arguments {tr[3:]}')
    ap = [c for c in CALLS if c[0] == 'apply']
    expect(ap and eqrows(ap[0][1], called), lambda: f'{what}: applied to '
           f'{ap}, expected {called}')
    kn = [c for c in CALLS if c[0] == 'known']
    a = tr[3]
    pred = [[sum(r) * a] for r in called]
    if known is not None:
        expect(len(kn) == 1 and eqrows(kn[0][1], known) and
               eqrows(kn[0][2], pred), lambda: f'{what}: compared {kn}, '
               f'expected {known} with {pred}')
    else:
        expect(eqrows(out.copy('pythonlist'), pred), lambda: f'{what}: '
               f'predictions {out.copy("pythonlist")}, expected {pred}')
    unchanged(what, (x, X), (yy, Y), (t, T), (ty, TY))
    expect(args == keep, lambda: f'{what}: arguments became {args}')


def unchanged(what, *pairs):
    for o, t in pairs:
        if isinstance(t, Tab):
            same(o, t, what + ': an object was changed')


SK = [('LinearRegression', dict(copy_X=False), 1), ('Ridge', {}, 1),
      ('Ridge', dict(copy_X=False), 1),
      ('KNeighborsClassifier', dict(n_neighbors=1), 1),
      ('GaussianNB', {}, 1), ('DecisionTreeClassifier', {}, 1),
      ('StandardScaler', dict(copy=False, with_mean=False), 0),
      ('MaxAbsScaler', dict(copy=False), 0), ('Normalizer', {}, 0),
      ('Normalizer', dict(copy=False), 0),
      ('Binarizer', dict(copy=False, threshold=1.0), 0),
      ('MinMaxScaler', dict(copy=False), 0), ('PCA', dict(copy=False), 0),
      ('KMeans', dict(copy_x=False, n_clusters=2, n_init=1), 0)]


def sklearn(rng):
    rt = rng.choice(TYPES)
    name, args, labels = rng.choice(SK)
    if rt == 'Sparse' and name in ('GaussianNB', 'MinMaxScaler', 'PCA'):
        raise Skip
    X, Y, rows, y = objects(rng, rt, n=rng.randint(4, 8), m=rng.choice([
        2, 3]))
    y[0][0], y[1][0] = 0, 1
    if isinstance(Y, Tab):
        Y.rows = [list(v) for v in y]
    else:
        j = X.fn.index('lab') if 'lab' in X.fn else int(Y)
        for r, v in zip(X.rows, y):
            r[j] = v[0]
    if not labels and not isinstance(Y, Tab):
        raise Skip
    for k, r in enumerate(X.rows):
        # learners that cluster or scale need distinct points
        if not labels:
            r[0] = k + .5
    T = Tab([list(r) for r in (rows if labels else X.rows)])
    x, yy, t = inst(X, rt, rng), inst(Y, rt, rng), inst(T, rt, rng)
    keep = copy.deepcopy(args)
    name = 'sklearn.' + name
    how = rng.choice(['train', 'trainAndApply', 'normalize', 'retrain'])
    what = f'{rt} {how} {name} {args}: X {X}, Y {Y}'
    if not labels:
        yy = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if how == 'normalize' and labels == 0:
            nimble.normalizeData(name, x, testX=t, arguments=args,
                                 useLog=False)
        elif how == 'trainAndApply':
            nimble.trainAndApply(name, x, yy, t, arguments=args,
                                 useLog=False)
        else:
            tl = nimble.train(name, x, yy, arguments=args, useLog=False)
            out = tl.apply(t, useLog=False)
            if how == 'retrain':
                tl.retrain(x, yy, arguments=args, useLog=False)
                again = tl.apply(t, useLog=False)
                expect('KMeans' in name or eqrows(out.copy('pythonlist'),
                                                  again.copy('pythonlist')),
                       f'{what}: training again on the same data gives '
                       'other results')
    unchanged(what, (x, X), (t, T), *([(yy, Y)] if labels else []))
    expect(args == keep, lambda: f'{what}: arguments became {args}')


def run(api):
    loop(api, 'split', 350, split, .5)
    loop(api, 'refused', 60, refused, .2)
    loop(api, 'learn', 250, learn, .6)
    loop(api, 'sklearn', 100, sklearn)
