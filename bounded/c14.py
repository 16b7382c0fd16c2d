"""Folds of the real fold iterators and of whole cross validations."""
from .driver import *
from nimble import CustomLearner
from nimble.calculate import performanceFunction
from nimble.core import tune

RULE = ('random data and label objects of up to 12 points in the four data '
        'types; k-fold, leave one out and group iterators run to the end, '
        'twice; whole cross validations with a learner that records what it '
        'is trained and applied on; a case is one iterator or validation')


def ids(rng, n, rt=None, wide=0):
    """points identified by their first cell, labels by 100 + it"""
    idv = list(range(1, n + 1))
    rng.shuffle(idv)
    w = rng.randint(0, 2)
    x = Tab([[v] + [rng.choice([0, 1, 2]) for _ in range(w)] for v in idv],
            [f'p{v}' for v in idv] if rng.random() < .6 else None,
            ['id', 'q', 'r'][:w + 1] if rng.random() < .6 else None)
    y = Tab([[100 + v] for v in idv], [f'p{v}' for v in idv]
            if rng.random() < .6 else None, ['lab'] if rng.random() < .5
            else None)
    return x, y, idv


def pairing(got, want, what):
    """a set of the iteration has whole rows of the source"""
    byid = {r[0]: (r, n) for r, n in zip(want.rows, want.pn)}
    t = read(got)
    expect(t.fn == want.fn, lambda: f'{what}: feature names {t.fn}')
    for r, n in zip(t.rows, t.pn):
        expect(r[0] in byid, lambda: f'{what}: unknown row {r}')
        expect(eqrows([r], [byid[r[0]][0]]) and n == byid[r[0]][1],
               lambda: f'{what}: row {r} named {n!r}, source '
               f'{byid[r[0]]}')
    return [r[0] for r in t.rows]


def whole(it, data, tabs, n, folds, what, keep=None):
    kept = set(range(n)) if keep is None else set(keep)
    expect(sorted(i for f in folds for i in f) == list(range(len(kept))),
           lambda: f'{what}: folds {folds} do not cover every point once')
    x = tabs[0]
    for turn in range(2):
        seen = []
        k = 0
        for res in it:
            k += 1
            expect(len(res) == len(data), what)
            trains, tests = [], []
            for (tr, te), t in zip(res, tabs):
                if t is None:
                    expect(tr is None and te is None, what)
                    continue
                trains.append(pairing(tr, t, f'{what} train'))
                tests.append(pairing(te, t, f'{what} test'))
            base = [v % 100 for v in trains[0]], [v % 100 for v in tests[0]]
            for a, b in zip(trains, tests):
                expect(([v % 100 for v in a], [v % 100 for v in b]) == base,
                       lambda: f'{what}: data and labels are not paired: '
                       f'{trains} {tests}')
            allids = sorted(x.rows[i][0] % 100 for i in kept)
            expect(sorted(base[0] + base[1]) == allids,
                   lambda: f'{what}: training {base[0]} and testing '
                   f'{base[1]} are not complementary')
            seen += base[1]
        expect(k == len(folds), lambda: f'{what}: {k} iterations')
        expect(sorted(seen) == allids,
               lambda: f'{what}: tested {seen} over all folds')
    for o, t in zip(data, tabs):
        if t is not None:
            same(o, t, f'{what}: source afterwards')


def kfold(rng):
    n = rng.randint(1, 12)
    x, y, _ = ids(rng, n)
    k = rng.choice([1, 2, 3, 4, 5, n, n, n + 1])
    rts = [rng.choice(TYPES) for _ in range(2)]
    tabs = [x, y] if rng.random() < .8 else [x, None]
    data = [mk(t, r, rng.choice(HOW)) if t else None
            for t, r in zip(tabs, rts)]
    what = f'{k} folds of {n} points in {rts}'
    st, it = attempt(tune.KFoldIterator, list(data), k)
    if k > n:
        expect(st == 'raise', lambda: f'{what} must be refused')
        return
    if st == 'raise':
        raise it
    folds = [list(f) for f in it.foldList]
    expect(len(folds) == k, lambda: f'{what}: {len(folds)} folds')
    sizes = [len(f) for f in folds]
    expect(max(sizes) - min(sizes) <= 1 and min(sizes) > 0,
           lambda: f'{what}: sizes {sizes}')
    whole(it, data, tabs, n, folds, what)


def groups(rng):
    n = rng.randint(1, 10)
    x, y, idv = ids(rng, n)
    vals = rng.choice([[1, 2, 3], ['a', 'b', 'c'], [0, 1], [0, 1.5, None],
                       [1, 2, None], ['a', 'a ', 'A', ' a'],
                       ['1', '1.0', '01', 1], [1, 1.25, 1.5, 2],
                       [-1, 1, 0], [1e9, 1e9 + 1, 1e9 + .5]])
    g = [rng.choice(vals) for _ in range(n)]
    keep = [i for i in range(n) if g[i] is not None]
    if not keep:
        raise Skip()
    rts = [rng.choice(TYPES) for _ in range(2)]
    grt = rng.choice([t for t in TYPES if t != 'Sparse'] if any(
        isinstance(v, str) for v in g) else TYPES)
    tabs = [x, y]
    data = [mk(t, r, rng.choice(HOW)) for t, r in zip(tabs, rts)]
    gtab = Tab([[v] for v in g])
    gobj = mk(gtab, grt, rng.choice(HOW))
    what = f'groups {g} ({grt}) of points in {rts}'
    it = tune.GroupFoldIterator(list(data), gobj)
    folds = [list(f) for f in it.foldList]
    gk = [g[i] for i in keep]
    for f in folds:
        expect(len({gk[i] for i in f}) == 1,
               lambda: f'{what}: fold {f} mixes groups')
    expect(len(folds) == len(set(gk)),
           lambda: f'{what}: {len(folds)} folds for the groups')
    whole(it, data, tabs, n, folds, what, keep)
    same(gobj, gtab, what + ': groups afterwards')


REC = []


class Recorder(CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY):
        REC.append(('train', [r[0] for r in rows(trainX)],
                    [r[0] for r in rows(trainY)]))

    def apply(self, testX):
        REC.append(('apply', [r[0] for r in rows(testX)]))
        return nimble.data([[r[0] + 100] for r in rows(testX)],
                           useLog=False)


def rows(o):
    return [[o[i, j] for j in range(len(o.features))]
            for i in range(len(o.points))]


@performanceFunction('min')
def mism(known, predicted):
    k, p = rows(known), rows(predicted)
    expect(len(k) == len(p), 'lengths')
    return sum(a[0] != b[0] for a, b in zip(k, p))


def validation(rng):
    n = rng.randint(2, 9)
    x, y, idv = ids(rng, n)
    rx, ry = rng.choice(TYPES), rng.choice(TYPES)
    X, Y = mk(x, rx), mk(y, ry)
    kind = rng.choice(['kfold', 'loo', 'group', 'proportion'])
    del REC[:]
    if kind == 'kfold':
        k = rng.randint(2, n)
        v = tune.KFold(Recorder, X, Y, mism, folds=k, useLog=False)
    elif kind == 'loo':
        k = n
        v = tune.LeaveOneOut(Recorder, X, Y, mism, useLog=False)
    elif kind == 'group':
        g = [rng.choice([1, 2, 3]) for _ in range(n)]
        if len(set(g)) < 2:
            raise Skip()
        k = len(set(g))
        v = tune.LeaveOneGroupOut(Recorder, X, Y, mism, nimble.data(
            [[a] for a in g], useLog=False), useLog=False)
    else:
        k = 1
        prop = rng.choice([.2, .5, .34])
        if int(prop * n) == 0:
            raise Skip()
        v = tune.HoldoutProportion(Recorder, X, Y, mism, proportion=prop,
                                   useLog=False)
    what = f'{kind} {k} of {n} points {rx}/{ry}'
    score = v.validate({})
    expect(score == 0, lambda: f'{what}: score {score}, every prediction '
           'matches its label')
    tr = [r for r in REC if r[0] == 'train']
    ap = [r for r in REC if r[0] == 'apply']
    expect(len(tr) == k and len(ap) == k, lambda: f'{what}: {REC}')
    for a, b in zip(tr, ap):
        expect(all(q == p + 100 for p, q in zip(a[1], a[2])),
               lambda: f'{what}: training pairs {a}')
        expect(sorted(a[1] + b[1]) == sorted(idv),
               lambda: f'{what}: trained on {a[1]}, tested on {b[1]}')
        if kind == 'group':
            gr = {g[idv.index(i)] for i in b[1]}
            expect(len(gr) == 1 and not any(
                g[idv.index(i)] in gr for i in a[1]),
                lambda: f'{what}: groups {g}, tested {b[1]}')
    if k > 1:
        expect(sorted(i for b in ap for i in b[1]) == sorted(idv),
               lambda: f'{what}: tested {ap}')
        expect(v._deepResults == [[0] * k], lambda: f'{v._deepResults}')
    else:
        expect(len(ap[0][1]) == int(prop * n),
               lambda: f'{what}: {prop} of {n} is {len(ap[0][1])}')
    same(X, x, what + ': data afterwards')
    same(Y, y, what + ': labels afterwards')


def run(api):
    loop(api, 'kfold', 150, kfold, .5)
    loop(api, 'group', 100, groups, .5)
    loop(api, 'validation', 60, validation)
